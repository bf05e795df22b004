"""C24, C25: the binding; further forms for C14, C28, C29, C07."""
PC, PH = "src/pyslatcore.cpp", "src/pyslatcore.h"
LF, LD, RL, CG = "src/loss_functions.cpp", "src/lognormaldist.cpp", "src/relationships.cpp", "src/comp_group.cpp"
BIND = ["C24", "C25", "C26", "C05"]


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


def bug(id, prop, *e): return case(id, prop, "alarm", *e)
def same(id, props, *e): return case(id, props, "quiet", *e)


CASES = [
    bug("b-delay-is-cost", "C25", (PC, "return wrapper->E_delay_EDP(edp);", "return wrapper->E_cost_EDP(edp);")),
    bug("b-sdln-cost-im", "C25", (PC, "return wrapper->SD_ln_cost_IM(edp);", "return wrapper->SD_ln_delay_IM(edp);")),
    bug("b-pdem-list", "C25", (PC, "std::vector<double> IM::pDemolition(std::vector<double> im)\n{\n    return relationship->pDemolition(im);", "std::vector<double> IM::pDemolition(std::vector<double> im)\n{\n    return relationship->pCollapse(im);")),
    bug("b-pexc-swapped", "C25", (PC, "double EDP::P_exceedence(double x, double y) \n{\n    return relationship->P_exceedence(x, y);", "double EDP::P_exceedence(double x, double y) \n{\n    return relationship->P_exceedence(y, x);")),
    bug("b-bulk-sd", "C25", (PC, "        result[i] = SD(x[i]);", "        result[i] = SD_ln(x[i]);")),
    bug("b-bulk-first", "C25", (PC, "        result[i] = Median(x[i]);", "        result[i] = Median(x[0]);")),
    bug("b-bulk-short", "C25", (PC, "    for (size_t i=0; i < x.size(); i++) {\n        result[i] = MeanLn(x[i]);", "    for (size_t i=0; i < x.size() - 1; i++) {\n        result[i] = MeanLn(x[i]);")),
    bug("b-deagg-swap", "C25", (PC, "results[0] = LogNormalDist(std::make_shared<SLAT::LogNormalDist>(losses.first));\n    results[1] = LogNormalDist(std::make_shared<SLAT::LogNormalDist>(losses.second));", "results[1] = LogNormalDist(std::make_shared<SLAT::LogNormalDist>(losses.first));\n    results[0] = LogNormalDist(std::make_shared<SLAT::LogNormalDist>(losses.second));")),
    bug("b-fate-swap", "C25", (PC, "(losses.demolition)", "(losses.collapse)"), ),
    bug("b-demolition-as-collapse", "C25", (PC, "    relationship->SetDemolition(d.dist);", "    relationship->SetCollapse(d.dist);")),
    bug("b-rebuild-ignored-once", "C25", (PC, "    wrapper->setRebuildCost(*cost.dist);", "    if (cost.dist->get_mean_X() > 0) wrapper->setRebuildCost(*cost.dist);")),
    bug("b-totalcost-cost", "C25", (PC, "(wrapper->TotalCost(im))", "(wrapper->Cost(im, true))")),
    bug("b-collapse-flag", "C25", (PC, "(wrapper->Cost(im, consider_collapse))", "(wrapper->Cost(im, !consider_collapse))")),
    bug("b-discount", "C25", (PC, "(1.0 - exp(-discount_rate * years))", "(1.0 - pow(1.0 + discount_rate, -years))")),
    bug("b-replace-both", "C25", (PC, "    loss->replace(lossfn->loss);", "    lossfn->loss->replace(loss);")),
    bug("b-method-swap", "C25", (PC, "        m = SLAT::Integration::IntegrationSettings::SCATTERED;", "        m = SLAT::Integration::IntegrationSettings::DIRECTED;")),
    bug("b-limit-search", "C25", (PC, "IntegrationSettings::Set_Integration_Search_Limit(limit);", "IntegrationSettings::Set_Integration_Eval_Limit(limit);")),
    bug("b-psurvive", "C25", (PC, "    return dist->p_at_most(x); ", "    return dist->p_at_least(x); ")),
    bug("f-nlh-order", "C24", (PC, "(v_asy, IM_asy, alpha)", "(alpha, IM_asy, v_asy)")),
    bug("f-plc", "C24", (PC, "        double a = params[0];\n        double b = params[1];", "        double a = params[1];\n        double b = params[0];")),
    bug("f-loglog", "C24", (PC, "std::make_shared<SLAT::LogLogInterpolatedFn>(x.data(), y.data(), x.size());", "std::make_shared<SLAT::LinearInterpolatedFn>(x.data(), y.data(), x.size());")),
    bug("f-loglog-size", "C24", (PC, "std::make_shared<SLAT::LogLogInterpolatedFn>(x.data(), y.data(), x.size());", "std::make_shared<SLAT::LogLogInterpolatedFn>(x.data(), y.data(), x.size() - 1);")),
    bug("f-lists-unequal", "C24", (PC, "        if (x.size() < 2 || x.size() != y.size()) {", "        if (x.size() < 2 || x.size() > y.size()) {", 1)),
    bug("f-onepoint", "C24", (PC, "        if (x.size() < 2 || x.size() != y.size()) {", "        if (x.size() < 1 || x.size() != y.size()) {", 0)),
    bug("f-nlh-four", "C24", (PC, "if (params.size() != 3)", "if (params.size() < 3)")),
    bug("f-median-mean", "C24", (PC, "        m = SLAT::LogNormalFn::M_TYPE::MEDIAN_X;", "        m = SLAT::LogNormalFn::M_TYPE::MEAN_LN_X;")),
    bug("f-sigma", "C24", (PC, "        s = SLAT::LogNormalFn::S_TYPE::SIGMA_X;", "        s = SLAT::LogNormalFn::S_TYPE::SIGMA_LN_X;")),
    bug("f-musigma", "C24", (PC, "(mu_function.function, m, sigma_function.function, s)", "(mu_function.function, m, mu_function.function, s)")),
    bug("f-dist-median", "C24", (PC, "LogNormalDist_from_median_X_and_sigma_lnX(mu, sigma)", "LogNormalDist_from_mean_X_and_sigma_lnX(mu, sigma)")),
    bug("f-dist-undefined", "C24", (PC, "    } else if (mu_type == MEAN_X && sigma_type == SD_X) {", "    } else if (sigma_type == SD_X) {")),
    bug("f-compgroup", "C24", (PC, "                             cost_fn.loss,\n                             delay_fn.loss, ", "                             delay_fn.loss,\n                             cost_fn.loss, ")),
    bug("f-factors", "C24", (PC, "                             cost_adjustment_factor,\n                             delay_adjustment_factor,\n                             name));", "                             delay_adjustment_factor,\n                             cost_adjustment_factor,\n                             name));")),
    bug("f-compound", "C24", (PC, "y_edp.relationship->Dependent_Rate(),", "x_edp.relationship->Dependent_Rate(),")),
    bug("f-frag-order", "C24", (PC, "        slat_distributions[i] = *(distributions[i]->dist);\n    };\n    return new FragilityFn", "        slat_distributions[i] = *(distributions[distributions.size() - 1 - i]->dist);\n    };\n    return new FragilityFn")),
    bug("f-bilevel", "C24", (PC, "(lower_limit, upper_limit, cost_at_min, cost_at_max, dispersion)", "(lower_limit, upper_limit, cost_at_max, cost_at_min, dispersion)")),
    bug("f-ctor-factors", "C24", (CG, "        cost_adjustment_factor(cost_adj),\n         delay_adjustment_factor(delay_adj)", "        cost_adjustment_factor(cost_adj),\n         delay_adjustment_factor(cost_adj)")),
    bug("f-adddist", "C24", (PC, "        slat_dists[i] = *(dists[i].dist);", "        slat_dists[i] = *(dists[0].dist);")),
    same("b-r-loop", BIND, (PC, "std::vector<double> IM::pRepair(std::vector<double> im)\n{\n    return relationship->pRepair(im);", "std::vector<double> IM::pRepair(std::vector<double> im)\n{\n    std::vector<double> result;\n    for (double x : im) result.push_back(relationship->pRepair(x));\n    return result;")),
    same("b-r-direct", BIND, (PC, "        result[i] = SD(x[i]);", "        result[i] = relationship->SD(x[i]);")),
    same("b-r-local", BIND, (PC, "    return wrapper->E_delay_EDP(edp); ", "    const double mean_delay = wrapper->E_delay_EDP(edp);\n    return mean_delay;")),
    same("b-r-wrap", BIND, (PC, "LogNormalDist Structure::Cost(double im, bool", "static LogNormalDist wrapped(const SLAT::LogNormalDist &d)\n{\n    return LogNormalDist(std::make_shared<SLAT::LogNormalDist>(d));\n}\n\nLogNormalDist Structure::Cost(double im, bool"),
         (PC, "LogNormalDist(std::make_shared<SLAT::LogNormalDist>(wrapper->TotalCost(im)))", "wrapped(wrapper->TotalCost(im))"),
         (PC, "    std::vector<LogNormalDist> results(2);\n    std::pair<SLAT::LogNormalDist, SLAT::LogNormalDist> losses = wrapper->DeaggregatedCost(im);\n    results[0] = LogNormalDist(std::make_shared<SLAT::LogNormalDist>(losses.first));\n    results[1] = LogNormalDist(std::make_shared<SLAT::LogNormalDist>(losses.second));", "    std::vector<LogNormalDist> results;\n    std::pair<SLAT::LogNormalDist, SLAT::LogNormalDist> losses = wrapper->DeaggregatedCost(im);\n    results.push_back(wrapped(losses.first));\n    results.push_back(wrapped(losses.second));")),
    same("b-r-discount", BIND, (PC, "    return ((1.0 - exp(-discount_rate * years)) / discount_rate) * wrapper->E_annual_cost();", "    double factor = (1.0 - 1.0 / exp(years * discount_rate)) / discount_rate;\n    return wrapper->E_annual_cost() * factor;")),
    same("b-r-bulkhelper", BIND, (PC, "std::vector<double> EDP::bulk_Mean(std::vector<double> x)\n{\n    std::vector<double> result(x.size());\n#pragma omp parallel for\n    for (size_t i=0; i < x.size(); i++) {\n        result[i] = Mean(x[i]);\n    }\n    return result;", "static std::vector<double> bulk(const std::vector<double> &x, std::function<double (double)> fn)\n{\n    std::vector<double> result(x.size());\n#pragma omp parallel for\n    for (size_t i=0; i < x.size(); i++) {\n        result[i] = fn(x[i]);\n    }\n    return result;\n}\n\nstd::vector<double> EDP::bulk_Mean(std::vector<double> x)\n{\n    return bulk(x, [this] (double v) { return Mean(v); });")),
    same("b-r-methodif", BIND, (PC, "    case SCATTERED:\n        m = SLAT::Integration::IntegrationSettings::SCATTERED;\n        break;\n    case DIRECTED:\n        m = SLAT::Integration::IntegrationSettings::DIRECTED;\n        break;", "    case DIRECTED:\n        m = SLAT::Integration::IntegrationSettings::DIRECTED;\n        break;\n    case SCATTERED:\n        m = SLAT::Integration::IntegrationSettings::SCATTERED;\n        break;")),
    same("f-r-direct", BIND, (PC, "        double a = params[0];\n        double b = params[1];\n        result = std::make_shared<SLAT::PowerLawParametricCurve>(a, b);", "        result = std::make_shared<SLAT::PowerLawParametricCurve>(params.at(0), params.at(1));")),
    same("f-r-return", BIND, (PC, "        result = std::make_shared<SLAT::NonLinearHyperbolicLaw>(v_asy, IM_asy, alpha);\n        break;", "        return new DeterministicFn(std::make_shared<SLAT::NonLinearHyperbolicLaw>(v_asy, IM_asy, alpha));")),
    same("f-r-helper", BIND, (PC, "DeterministicFn *factory3(FUNCTION_TYPE t,", "static bool usable(const std::vector<double> &x, const std::vector<double> &y)\n{\n    return x.size() >= 2 && x.size() == y.size();\n}\n\nDeterministicFn *factory3(FUNCTION_TYPE t,"),
         (PC, "        if (x.size() < 2 || x.size() != y.size()) {", "        if (!usable(x, y)) {", 0), (PC, "        if (x.size() < 2 || x.size() != y.size()) {", "        if (!usable(x, y)) {", 0)),
    same("f-r-switch", BIND, (PC, "    if (mu_type == MEAN_LN_X && sigma_type == SD_LN_X) {\n        dist = SLAT::LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, sigma);\n    } else if (mu_type == MEAN_X && sigma_type == SD_LN_X) {", "    if (sigma_type == SD_LN_X && mu_type == MEAN_LN_X) {\n        dist = SLAT::LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, sigma);\n    } else if (sigma_type == SD_LN_X && mu_type == MEAN_X) {")),
    same("f-r-range", BIND, (PC, "    std::vector<SLAT::LogNormalDist> slat_distributions(distributions.size());\n    for (size_t i=0; i < distributions.size(); i++) {\n        slat_distributions[i] = *(distributions[i]->dist);\n    };\n    return new FragilityFn", "    std::vector<SLAT::LogNormalDist> slat_distributions;\n    for (LogNormalDist *d : distributions) {\n        slat_distributions.push_back(*d->dist);\n    };\n    return new FragilityFn")),
    same("f-r-bodyctor", BIND, (CG, "        cost_adjustment_factor(cost_adj),\n         delay_adjustment_factor(delay_adj)\n    {", "        cost_adjustment_factor(cost_adj)\n    {\n        this->delay_adjustment_factor = delay_adj;")),
    same("f-r-local", BIND, (PC, "    return new CompGroup(std::make_shared<SLAT::CompGroup>( \n                             edp.relationship, \n                             frag_fn.fragility,\n                             cost_fn.loss,\n                             delay_fn.loss, \n                             count, \n                             cost_adjustment_factor,\n                             delay_adjustment_factor,\n                             name));", "    std::shared_ptr<SLAT::LossFn> cost = cost_fn.loss;\n    std::shared_ptr<SLAT::LossFn> delay = delay_fn.loss;\n    std::shared_ptr<SLAT::CompGroup> group = std::make_shared<SLAT::CompGroup>(edp.relationship, frag_fn.fragility, cost, delay, count, \n                             cost_adjustment_factor, delay_adjustment_factor, name);\n    return new CompGroup(group);")),
]
