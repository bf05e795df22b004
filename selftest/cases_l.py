"""C21: parts which are optional."""
ST, CG, RC, RH = "src/structure.cpp", "src/comp_group.cpp", "src/relationships.cpp", "src/relationships.h"


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


def bug(id, *e): return case(id, "C21", "alarm", *e)
def same(id, *e): return case(id, ["C21", "C12", "C23", "C32", "C01"], "quiet", *e)


COST = "                 if (this->cost_fn  == NULL) {\n"
DELAY = "                 if (this->delay_fn  == NULL) {\n"
CFATE = "        COSTS result;\n        if (this->im != NULL) {\n"
CCOL = "            if (this->im != NULL) {\n                double pCollapse"
PC = """            if (collapse) {
                return collapse->p_at_most(im);
            } else {
                return 0;
            }
"""
PD = """            if (demolition) {
                return demolition->p_at_most(im) - pCollapse(im);
            } else {
                return 0;
            }
"""
DTOR = """        if (cost_fn) {
            cost_fn->remove_callbacks(cost_fn_callback_id);
        }
"""
DTOR2 = """        if (delay_fn) {
            delay_fn->remove_callbacks(delay_fn_callback_id);
        }
"""
PRC = "        if (o.cost_fn) out << \", \" << *(o.cost_fn);\n"
PRD = "        if (o.delay_fn) out << \", \" << *(o.delay_fn);\n"
TOTAL = "        if (this->im == NULL) return LogNormalDist();\n\n        LogNormalDist cost_repair"
ANN = "        if (components.size() > 0) {\n            // I commented"
REM = "                components.erase(components.begin()+i);\n                this->Clear_Cache();\n"
ADD = "            im = cg->getIM();\n"

CASES = [
    bug("opt-cost-unguarded", (CG, COST, "                 if (this->count == 0) {\n")),
    bug("opt-cost-wrong-one", (CG, COST, "                 if (this->delay_fn  == NULL) {\n")),
    bug("opt-delay-inverted", (CG, DELAY, "                 if (this->delay_fn  != NULL) {\n")),
    bug("opt-dtor-wrong-one", (CG, DTOR, DTOR.replace("if (cost_fn)", "if (delay_fn)"))),
    bug("opt-dtor-id", (CG, DTOR2, "        if (delay_fn_callback_id >= 0) {\n            delay_fn->remove_callbacks(delay_fn_callback_id);\n        }\n")),
    bug("opt-print-cost", (CG, PRC, '        out << ", " << *(o.cost_fn);\n')),
    bug("opt-print-either", (CG, PRC, ""), (CG, PRD, '        if (o.cost_fn || o.delay_fn) out << ", " << *(o.cost_fn) << ", " << *(o.delay_fn);\n')),
    bug("opt-subscribe-cost", (CG, "        if (cost_fn) {\n            cost_fn_callback_id", "        if (count > 0) {\n            cost_fn_callback_id")),
    bug("opt-fate-components", (ST, CFATE, "        COSTS result;\n        {\n")),
    bug("opt-cost-collapse", (ST, CCOL, "            if (consider_collapse) {\n                double pCollapse")),
    bug("opt-total", (ST, TOTAL, "        LogNormalDist cost_repair")),
    bug("opt-annual", (ST, ANN, "        if (components.size() >= 0) {\n            // I commented")),
    bug("opt-pcollapse-demolition", (RH, PC, PC.replace("if (collapse)", "if (demolition)"))),
    bug("opt-pdemolition-collapse", (RH, PD, PD.replace("if (demolition)", "if (collapse)"))),
    bug("opt-remove-drops-im", (ST, REM, REM + "                im = NULL;\n")),
    bug("opt-add-forgets-im", (ST, ADD, "            auto im = cg->getIM();\n")),

    same("opt-early-return", (CG, COST, "                 if (!this->cost_fn) return LogNormalDist();\n                 if (false) {\n")),
    same("opt-fate-early", (ST, CFATE, "        COSTS result;\n        if (!this->im) return result;\n        {\n")),
    case("opt-fate-components-known", "C21", "quiet", (ST, CFATE, "        COSTS result;\n        if (!components.empty()) {\n")),
    same("opt-pc-ternary", (RH, PC, "            return collapse ? collapse->p_at_most(im) : 0;\n")),
    same("opt-pd-local", (RH, PD, """            std::shared_ptr<LogNormalDist> d = demolition;
            if (d == nullptr) return 0;
            return d->p_at_most(im) - pCollapse(im);
""")),
    same("opt-dtor-get", (CG, DTOR, DTOR.replace("if (cost_fn)", "if (cost_fn.get() != nullptr)"))),
    same("opt-annual-empty", (ST, ANN, "        if (!components.empty()) {\n            // I commented")),
    same("opt-annual-size", (ST, ANN, "        if (components.size() >= 1) {\n            // I commented")),
    same("opt-count-less-than-one", *[(CG, "        if (count > 0) {\n", "        if (!(count < 1)) {\n", 0)] * 6),
    same("opt-count-none-early", (CG, "        if (count > 0) {\n", "        if (count <= 0) return 0;\n        if (true) {\n", 0), (CG, "        if (count > 0) {\n", "        if (count >= 1) {\n", 2)),
    same("opt-print-helper", (CG, PRC, '        print_loss(out, o.cost_fn);\n'), (CG, PRD, '        print_loss(out, o.delay_fn);\n'),
         (CG, "    std::ostream& operator<<(std::ostream& out, const CompGroup& o)\n", """    static void print_loss(std::ostream &out, const std::shared_ptr<LossFn> &fn)
    {
        if (fn != NULL) out << ", " << *fn;
    }

    std::ostream& operator<<(std::ostream& out, const CompGroup& o)
""")),
    same("opt-private-helper", (RH, PC, "            return collapse ? known(im) : 0;\n"),
         (RH, "        virtual std::string ToString(void) const;\n            \n        friend std::ostream& operator<<(std::ostream& out, const IM& o);\n    private:\n",
          "        virtual std::string ToString(void) const;\n            \n        friend std::ostream& operator<<(std::ostream& out, const IM& o);\n    private:\n        double known(double im) { return collapse->p_at_most(im); }\n")),
    same("opt-remove-last-drops-im", (ST, REM, REM + "                if (components.empty() && im) {\n                    im->remove_callbacks(im_callback_id);\n                    im = NULL;\n                }\n")),
    same("opt-raw-guard", (ST, CCOL, "            IM *known = this->im.get();\n            if (known) {\n                double pCollapse")),
]
