"""Fresh bugs written from the properties' statements alone."""
R, RC, G, ST, SH, H, F, FH, P, RH, FR, L, LF, M = ("src/relationships.h", "src/relationships.cpp", "src/comp_group.cpp", "src/structure.cpp", "src/structure.h", "src/caching.h",
    "src/functions.cpp", "src/functions.h", "src/pyslatcore.cpp", "src/replaceable.h", "src/fragility.cpp", "src/lognormaldist.cpp", "src/loss_functions.cpp", "src/maq.cpp")


def bug(id, prop, *edits): return {"id": id, "prop": prop, "want": "alarm", "edits": list(edits)}
def same(id, prop, *edits): return {"id": id, "prop": prop, "want": "quiet", "edits": list(edits)}


CHK = """        if (cg->getIM() != im) {
            throw std::invalid_argument("WRONG IM");
        }
"""
CASES = [
    bug("o-dtor-skips-first", "C04", (ST, "for (size_t i=0; i < components.size(); i++) {\n            components[i]->first->remove", "for (size_t i=1; i < components.size(); i++) {\n            components[i]->first->remove")),
    bug("o-remove-erase-first", ["C04", "C02"], (ST, """                cg->remove_callbacks(components[i]->second);
                components.erase(components.begin()+i);""", """                components.erase(components.begin()+i);
                if (i < components.size()) cg->remove_callbacks(components[i]->second);""")),
    bug("o-wrong-im-checked-late", ["C16", "C21", "C03"], (ST, CHK, ""), (ST, "        components.push_back(entry);\n        this->Clear_Cache();", "        components.push_back(entry);\n        this->Clear_Cache();\n" + CHK)),
    bug("o-im-kept-by-first-group", "C04", (ST, "if (im) im->remove_callbacks(im_callback_id);\n            im = cg", "im = cg")),
    bug("o-groups-im-not-followed", "C03", (ST, "                    this->im = new_im;\n", "                    if (!this->im) this->im = new_im;\n")),
    bug("o-cost-nc-large-structure", "C12", (ST, "        const size_t N = components.size();", "        const size_t N = components.size() > 64 ? 64 : components.size();")),
    bug("o-total-cost-demolition-guard", "C12", (ST, "        if (this->im->pDemolition(im) > 0) {\n            E_sq_cost", "        if (this->im->pCollapse(im) > 0) {\n            E_sq_cost")),
    bug("o-variance-not-of-collapse", "C12", (ST, "            cost_collapse.get_sigma_X() * cost_collapse.get_sigma_X();", "            cost_collapse.get_sigma_lnX() * cost_collapse.get_sigma_X();")),
    bug("o-years-off", "C07", (ST, "result[i] = E_cost(years[i], discount_rate);", "result[i] = E_cost(i > 0 && years[i] == years[i - 1] + 1 ? years[i - 1] : years[i], discount_rate);")),
    bug("o-cost-collapse-weights-clipped", "C12", (ST, "std::vector<double> weights = { 1.0 - pCollapse, pCollapse };", "std::vector<double> weights = { 1.0 - pCollapse, pCollapse < 0.01 ? 0 : pCollapse };")),
    # relationships
    bug("o-im-replace-same-type-silent", ["C02", "C03"], (RC, "                this->base_rate = new_base_rate;\n                this->notify_change();", "                this->base_rate = new_base_rate;\n                if (new_base_rate->pCollapse(1.0) > 0) this->notify_change();")),
    bug("o-collapse-rate-needs-demolition", ["C32", "C21"], (RC, "        if (collapse) {\n            Integration", "        if (collapse && (demolition || name.size() > 0)) {\n            Integration")),
    bug("o-demolition-rate-of-collapse", "C32", (RC, "                    double p = this->pDemolition(im);", "                    double p = this->pDemolition(im) + (im > 5 ? this->pCollapse(im) : 0);")),
    bug("o-edp-lambda-repair-once", "C32", (RC, "(1.0 - base_rate->pRepair(x2))) * std::abs(d)", "(1.0 - base_rate->pRepair(min_y))) * std::abs(d)")),
    bug("o-compound-chooses-by-exceedence", "C14", (RC, "    double CompoundEDP::SD_ln(double base_value) const\n    {\n        switch (WhichToUse(base_value)) {", "    double CompoundEDP::SD_ln(double base_value) const\n    {\n        switch (WhichToUse(std::floor(base_value))) {")),
    bug("o-compound-second-replace", "C03", (RC, "                this->second_dependent_rate = new_dependent_rate;", "                this->dependent_rate = new_dependent_rate;")),
    bug("o-compound-second-no-clear", ["C01", "C02"], (RC, """        second_dependent_rate_callback_id = second_dependent_rate->add_callbacks(
            [this] (void) {
                this->lambda.ClearCache();""", """        second_dependent_rate_callback_id = second_dependent_rate->add_callbacks(
            [this] (void) {""")),
    bug("o-prepair-collapse-twice", ["C12", "C32"], (R, "            return 1.0 - (pDemolition(im) + pCollapse(im));", "            return demolition ? 1.0 - (pDemolition(im) + pCollapse(im)) : 1.0;")),
    bug("o-list-lambda-sorted", "C07", (RC, "        std::vector<double> result(x.size());\n#pragma omp parallel for\n        for (size_t i=0; i < x.size(); i++) {\n            result[i] = lambda(x[i]);", "        std::vector<double> result(x.size());\n#pragma omp parallel for\n        for (size_t i=0; i < x.size(); i++) {\n            result[i] = i > 0 && x[i] < x[i - 1] ? lambda(x[i - 1]) : lambda(x[i]);")),
    bug("o-mean-list-shared-variable", "C15", (RC, """        std::vector<double> result(base_values.size());
#pragma omp parallel for
        for (size_t i = 0; i < base_values.size(); i++) {
            result[i] = Mean(base_values[i]);""", """        std::vector<double> result(base_values.size());
        double b = 0;
#pragma omp parallel for
        for (size_t i = 0; i < base_values.size(); i++) {
            b = base_values[i];
            result[i] = Mean(b);""")),
    # comp group
    bug("o-delay-clears-only-on-edp", ["C01", "C02"], (G, """                [this] (std::shared_ptr<LossFn> new_delay_fn) {
                    this->E_delay_IM.ClearCache();
                    this->SD_ln_delay_IM.ClearCache();
                    this->delay_EDP_dist.ClearCache();""", """                [this] (std::shared_ptr<LossFn> new_delay_fn) {
                    this->E_delay_IM.ClearCache();
                    this->delay_EDP_dist.ClearCache();""")),
    bug("o-cost-fn-shared-with-delay", ["C02", "C03", "C04"], (G, "        if (delay_fn) {\n            delay_fn_callback_id", "        if (delay_fn && delay_fn != cost_fn) {\n            delay_fn_callback_id")),
    bug("o-dtor-delay-by-cost-id", "C04", (G, "            delay_fn->remove_callbacks(delay_fn_callback_id);", "            delay_fn->remove_callbacks(cost_fn ? cost_fn_callback_id : delay_fn_callback_id);")),
    bug("o-delay-count-of-cost", "C23", (G, "                     return this->delay_fn->CalculateLoss(this->frag_fn->pHighest(edp), \n                                                          this->count,", "                     return this->delay_fn->CalculateLoss(this->frag_fn->pHighest(edp), \n                                                          this->cost_fn ? this->count : 1,")),
    bug("o-costdist-error-dropped", "C26", (G, "        if (sd_error) std::rethrow_exception(sd_error);\n\n        return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(E, sd_ln);", "        if (sd_error && std::isnan(E)) std::rethrow_exception(sd_error);\n\n        return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(E, sd_ln);")),
]
