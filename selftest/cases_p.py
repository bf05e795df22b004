"""Results remembered by hand."""
exec(open(__file__.replace("cases_p", "cases_o")).read().split("CHK =")[0])
NC = "        LogNormalDist nc_dist = CostNC(im);\n"
ALL = ["C01", "C02", "C06", "C15", "C30"]
FLD = (SH, "        LogNormalDist Cost(double im, bool consider_collapse);", "        LogNormalDist Cost(double im, bool consider_collapse);\n        double last_im = -1; LogNormalDist last;")
CASES = [
    bug("p-static-local", ALL, (ST, NC, "        static double last_im = -1; static LogNormalDist last;\n        if (im != last_im) { last = CostNC(im); last_im = im; }\n        LogNormalDist nc_dist = last;\n")),
    bug("p-file-static", ALL, (ST, "    Structure::Structure(std::string name)", "    static double last_im = -1; static LogNormalDist last;\n    Structure::Structure(std::string name)"), (ST, NC, "        if (im != last_im) { last = CostNC(im); last_im = im; }\n        LogNormalDist nc_dist = last;\n")),
    bug("p-field", ALL, FLD, (ST, NC, "        if (im != last_im) { last = CostNC(im); last_im = im; }\n        LogNormalDist nc_dist = last;\n")),
    bug("p-thread-local", ["C01", "C02", "C30"], (ST, NC, "        static thread_local double last_im = -1; static thread_local LogNormalDist last;\n        if (im != last_im) { last = CostNC(im); last_im = im; }\n        LogNormalDist nc_dist = last;\n")),
    bug("p-static-map", ALL, (ST, NC, "        static std::map<double, LogNormalDist> known;\n        if (!known.count(im)) known[im] = CostNC(im);\n        LogNormalDist nc_dist = known[im];\n"), (ST, "#include <memory>", "#include <map>\n#include <memory>")),
    bug("p-edp-field", ALL, (R, "        double P_exceedence(double base_value, double min_dependent_value) const;", "        double P_exceedence(double base_value, double min_dependent_value) const;"),) if 0 else
    bug("p-im-field", ALL, (RC, "    double IM::lambda(double x)\n    {\n        return f->ValueAt(x);", "    static double lambda_x = -1, lambda_v;\n    double IM::lambda(double x)\n    {\n        if (x != lambda_x) { lambda_v = f->ValueAt(x); lambda_x = x; }\n        return lambda_v;")),
    bug("p-fragility-static", ALL, (FR, "FragilityFn::pExceeded(double", "FragilityFn::pExceeded(double")) if 0 else
    bug("p-count-kept", ALL, (SH, "        LogNormalDist Cost(double im, bool consider_collapse);", "        LogNormalDist Cost(double im, bool consider_collapse);\n        size_t known_count = 0;"), (ST, "        const size_t N = components.size();", "        if (known_count == 0) known_count = components.size();\n        const size_t N = known_count;"), ),
    same("p-static-const", ALL, (ST, NC, "        static const double none = 0;\n        (void)none;\n" + NC)),
    same("p-static-counter-locked", ["C01", "C02", "C06", "C15", "C30"], (ST, NC, "        static int calls = 0;\n#pragma omp critical(calls)\n        calls++;\n" + NC)),
    same("p-static-table", ALL, (ST, NC, "        static const std::vector<double> table = { 1.0, 2.0 };\n        (void)table;\n" + NC)),
]
USE = (ST, NC, "        if (im != last_im) { last = CostNC(im); last_im = im; }\n        LogNormalDist nc_dist = last;\n")
CLR = (ST, "        AnnualCost.ClearCache();", "        AnnualCost.ClearCache();\n        last_im = -1;")
CASES += [same("p-field-cleared", ["C01", "C02", "C30", "C04", "C03"], FLD, USE, CLR),
          bug("p-field-cleared-c02", "C02", FLD, USE), bug("p-field-cleared-c30", "C30", FLD, USE), bug("p-field-cleared-c01", "C01", FLD, USE),
          same("p-static-overwritten", ALL, (ST, NC, "        static thread_local LogNormalDist nc_dist;\n        nc_dist = CostNC(im);\n")),
          bug("p-fragility", ALL, (FR, "        std::vector<double> result = pExceeded(edp);", "        static thread_local double at = -1; static thread_local std::vector<double> kept;\n        if (edp != at) { kept = pExceeded(edp); at = edp; }\n        std::vector<double> result = kept;")),
]
