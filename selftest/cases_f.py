"""C16: validation; further quiet forms for C14, C28, C29, C07."""
FR, FN, LF, LD, ST, PC, RL, CG = ("src/fragility.cpp", "src/functions.cpp", "src/loss_functions.cpp", "src/lognormaldist.cpp",
                                  "src/structure.cpp", "src/pyslatcore.cpp", "src/relationships.cpp", "src/comp_group.cpp")
VAL = ["C16", "C27", "C28", "C29", "C31", "C24", "C05", "C06"]


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


def bug(id, prop, *e): return case(id, prop, "alarm", *e)
def same(id, props, *e): return case(id, props, "quiet", *e)


LOOP = """            double mean = NAN;
            for (unsigned int i=0; i < onsets.size(); i++) {
                if (onsets[i].get_mu_lnX() <= mean) {
                    throw std::invalid_argument("onsets");
                    break;
                } else {
                    damage_states[i] = onsets[i];
                    mean = damage_states[i].get_mu_lnX();
                }
            }   
"""
WRONG = """        if (cg->getIM() != im) {
            throw std::invalid_argument("WRONG IM");
        }
"""

CASES = [
    bug("v-onsets-equal", "C16", (FR, "get_mu_lnX() <= mean", "get_mu_lnX() < mean")),
    bug("v-onsets-nomean", "C16", (FR, "                    mean = damage_states[i].get_mu_lnX();", "                    if (i == 0) mean = damage_states[i].get_mu_lnX();")),
    bug("v-onsets-nothrow", "C16", (FR, '                    throw std::invalid_argument("onsets");\n                    break;', '                    damage_states[i] = onsets[i - 1];')),
    bug("v-onsets-decreasing", "C16", (FR, "get_mu_lnX() <= mean", "get_mu_lnX() >= mean")),
    bug("v-onsets-empty", "C16", (FR, "if (onsets.size() == 0) {", "if (onsets.size() == 0 && false) {")),
    bug("v-onsets-one", "C16", (FR, "if (onsets.size() == 0) {", "if (onsets.size() <= 1) {")),
    bug("v-onsets-last", "C16", (FR, "i=0; i < onsets.size(); i++) {\n                if", "i=0; i < onsets.size() - 1; i++) {\n                if")),
    bug("v-onsets-second", "C16", (FR, LOOP, """            damage_states[0] = onsets[0];
            for (size_t i=2; i < onsets.size(); i++) {
                if (onsets[i].get_mu_lnX() <= onsets[i - 1].get_mu_lnX()) throw std::invalid_argument("onsets");
            }
            damage_states = onsets;
""")),
    bug("v-onsets-odd", "C16", (FR, LOOP, """            for (size_t i=2; i < onsets.size(); i++) {
                if (onsets[i].get_mu_lnX() <= onsets[i - 2].get_mu_lnX()) throw std::invalid_argument("onsets");
            }
            damage_states = onsets;
""")),
    bug("v-table-equal", "C16", (FN, "if (!(x[i - 1] < x[i]))", "if (x[i] < x[i - 1])")),
    bug("v-table-one", "C16", (FN, "if (size < 2)", "if (size < 1)")),
    bug("v-table-three", "C16", (FN, "if (size < 2)", "if (size < 3)")),
    bug("v-table-values", "C16", (FN, "if (!(x[i - 1] < x[i]))", "if (!(y[i - 1] < y[i]))")),
    bug("v-loss-empty", "C16", (LF, "        if (distributions.size() == 0) {\n            throw std::invalid_argument(\"distributions\");\n        } else {\n            loss_functions", "        if (distributions.size() > 0) {\n            loss_functions")),
    bug("v-bilevel-empty", "C16", (LF, "        if (distributions.size() == 0) {\n            throw std::invalid_argument(\"distributions\");\n        }\n    }\n\n    LogN", "        if (distributions.size() == 1) {\n            throw std::invalid_argument(\"distributions\");\n        }\n    }\n\n    LogN")),
    bug("v-weights-more", "C16", (LD, "distributions.size() != weights.size()", "distributions.size() > weights.size()")),
    bug("v-weights-empty", "C16", (LD, "distributions.size() != weights.size()", "distributions.size() != weights.size() && weights.size() > 0")),
    bug("v-bilevel-fewer", "C16", (LF, "probabilities.size() != distributions.size()", "probabilities.size() < distributions.size()")),
    bug("v-lognormal-invalid", "C16", (FN, "        case SIGMA_LN_X:\n", "        case SIGMA_INVALID:\n        case SIGMA_LN_X:\n"), (FN, "        case SIGMA_INVALID:\n        default:\n            throw std::invalid_argument(\"SIGMA\");", "        default:\n            throw std::invalid_argument(\"SIGMA\");")),
    bug("v-lognormal-mean", "C16", (FN, "        case MEAN_INVALID:\n        default:\n            throw", "        case MEAN_INVALID:\n            break;\n        default:\n            throw")),
    bug("v-im-added-first", "C16", (ST, WRONG, ""), (ST, "        std::shared_ptr<CG_ENTRY> entry = std::make_shared<CG_ENTRY>(cg, 0);\n", "        std::shared_ptr<CG_ENTRY> entry = std::make_shared<CG_ENTRY>(cg, 0);\n        components.push_back(entry);\n" + WRONG)),
    bug("v-im-unchecked", "C16", (ST, "if (cg->getIM() != im) {", "if (components.size() == 1 && cg->getIM() != im) {")),
    bug("v-replace-none", "C16", (PC, "    if (edp == NULL) throw std::invalid_argument(\"Can't replace an object with None.\");\n", "    if (edp == NULL) return;\n")),
    same("v-r-lock", VAL, (FR, LOOP, """            for (size_t i=0; i < onsets.size(); i++) {
                damage_states[i] = onsets[i];
                if (i > 0 && onsets[i].get_mu_lnX() <= onsets[i - 1].get_mu_lnX()) throw std::invalid_argument("onsets");
            }
""")),
    same("v-r-from1", VAL, (FR, LOOP, """            for (size_t i=1; i < onsets.size(); i++) {
                if (!(onsets[i - 1].get_mu_lnX() < onsets[i].get_mu_lnX())) throw std::invalid_argument("onsets");
            }
            damage_states = onsets;
""")),
    same("v-r-ahead", VAL, (FR, LOOP, """            for (size_t i=0; i + 1 < onsets.size(); i++) {
                if (onsets[i].get_median_X() >= onsets[i + 1].get_median_X()) throw std::invalid_argument("onsets");
            }
            damage_states = onsets;
""")),
    same("v-r-helper", VAL, (FR, "    FragilityFn::FragilityFn(std::vector<LogNormalDist> onsets)\n", """    static bool increasing(const std::vector<LogNormalDist> &onsets)
    {
        for (size_t i=1; i < onsets.size(); i++) {
            if (onsets[i].get_mu_lnX() <= onsets[i - 1].get_mu_lnX()) return false;
        }
        return true;
    }

    FragilityFn::FragilityFn(std::vector<LogNormalDist> onsets)
"""), (FR, LOOP, """            if (!increasing(onsets)) throw std::invalid_argument("onsets");
            damage_states = onsets;
""")),
    same("v-r-range", VAL, (FR, LOOP, """            double previous = -INFINITY;
            size_t n = 0;
            for (LogNormalDist onset : onsets) {
                if (n > 0 && onset.get_mu_lnX() <= previous) throw std::invalid_argument("onsets");
                previous = onset.get_mu_lnX();
                damage_states[n] = onset;
                n++;
            }
""")),
    same("v-r-empty", VAL, (FR, "if (onsets.size() == 0) {", "if (onsets.empty()) {"), (LF, "        if (distributions.size() == 0) {\n            throw std::invalid_argument(\"distributions\");\n        } else {\n            loss_functions = distributions;\n        }", "        if (distributions.empty()) throw std::invalid_argument(\"no distributions\");\n        loss_functions = distributions;")),
    same("v-r-table", VAL, (FN, "if (!(x[i - 1] < x[i]))", "if (x[i - 1] >= x[i])")),
    same("v-r-weights", VAL, (LD, "        if (distributions.size() != weights.size()) {", "        const size_t count = distributions.size();\n        if (weights.size() > count || weights.size() < count) {")),
    same("v-r-im", VAL + ["C03", "C02", "C04"], (ST, WRONG, ""), (ST, "        if (components.size() == 0) {\n            if (im)", "        if (components.size() > 0) {\n            if (cg->getIM() != im) throw std::invalid_argument(\"WRONG IM\");\n        } else {\n            if (im)")),
    same("v-r-zeroweight", ["C29", "C16"], (LD, "            new_mean_X += mean_X * weights[i];", "            if (weights[i] == 0) continue;\n            new_mean_X += mean_X * weights[i];")),
    same("v-r-bilevel", ["C28", "C16"], (LF, "        if (count <= count_min) {\n            mean = cost_at_min;\n        } else if (count >= count_max) {\n            mean = cost_at_max;\n        } else {", "        if (count >= count_max && count > count_min) {\n            mean = cost_at_max;\n        } else if (count <= count_min) {\n            mean = cost_at_min;\n        } else {")),
    same("v-r-bilevel2", ["C28", "C16"], (LF, "        if (count <= count_min) {", "        if (count < count_min) {")),
    same("v-r-bilevel3", ["C28", "C16"], (LF, "            mean = cost_at_min + double(count - count_min)/(count_max - count_min) * (cost_at_max - cost_at_min);", "            const double f = double(count - count_min)/(count_max - count_min);\n            mean = (1 - f) * cost_at_min + f * cost_at_max;")),
]
