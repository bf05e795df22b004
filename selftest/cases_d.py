"""C10 and C11: the integrator."""
MQ, MH = "src/maq.cpp", "src/maq.h"
ALL = ["C05", "C06", "C09", "C10", "C11", "C12", "C26"]


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


def bug(id, prop, *e): return case(id, prop, "alarm", *e)
def same(id, *e): return case(id, ALL, "quiet", *e)


CRIT = "#pragma omp critical\n"
NANS = CRIT + "                stats.nans++;\n" + CRIT + "                stats.total_integrations_evals += counter;\n"
CASES = [
    bug("mq-nonan", "C10", (MQ, NANS + "                return {NAN, false, counter};\n            }\n\n            if (std::isnan(fb))",
        CRIT + "                stats.total_integrations_evals += counter;\n                return {NAN, false, counter};\n            }\n\n            if (std::isnan(fb))")),
    bug("mq-nototal", "C10", (MQ, CRIT + "                    stats.nans++;\n" + CRIT + "                    stats.total_integrations_evals += counter;\n", CRIT + "                    stats.nans++;\n", 1)),
    bug("mq-success-and-fail", "C10", (MQ, "            if (success) {\n" + CRIT + "                stats.successes++;\n            } else {\n", CRIT + "            stats.successes++;\n            if (!success) {\n")),
    bug("mq-limit-success", "C10", (MQ, "                    success = false;\n                    integral = NAN;\n                    break;", "                    integral = NAN;\n                    break;")),
    bug("mq-limit-keeps-value", "C10", (MQ, "                    success = false;\n                    integral = NAN;\n                    break;", "                    success = false;\n                    break;")),
    bug("mq-fe-succeeds", "C10", (MQ, "                    return {NAN, false, counter};\n                }\n        \n                double r2", "                    return {NAN, true, counter};\n                }\n        \n                double r2")),
    bug("mq-calls-after", "C10", (MQ, CRIT + "            stats.calls++;\n", ""), (MQ, CRIT + "            if (counter > stats.max_successful_integration) {", CRIT + "            stats.calls++;\n" + CRIT + "            if (counter > stats.max_successful_integration) {")),
    bug("mq-uncritical", "C10", (MQ, CRIT + "                    stats.number_search_fails++;", "                    stats.number_search_fails++;")),
    bug("mq-atomic-mix", "C10", (MQ, CRIT + "                stats.successes++;", "#pragma omp critical(outcome)\n                stats.successes++;"), (MQ, CRIT + "                stats.number_integration_fails++;", "#pragma omp critical(outcome)\n                stats.number_integration_fails++;"), (MQ, CRIT + "            stats.total_integrations_evals += counter;\n            return {integral", "#pragma omp critical(outcome)\n            stats.total_integrations_evals += counter;\n            return {integral")),
    bug("mq-search-total", "C10", (MQ, "                    stats.total_search_evals += r.evaluations;\n                    if (stats.max_successful_search < r.evaluations) {", "                    if (stats.max_successful_search < r.evaluations) {\n                        stats.total_search_evals += r.evaluations;")),
    bug("mq-wrong-method", "C10", (MQ, "                    r = low_first_reverse_binary_subdivision(integrand, bineval);", "                    r = reverse_binary_subdivision(integrand, bineval);")),
    bug("mq-counter-stuck", "C10", (MQ, "                counter++;\n                if (counter > maxeval) {", "                if (counter > maxeval) {")),
    bug("mq-refine-searchlimit", "C10", (MQ, "                if (counter > maxeval) {", "                (void)maxeval;\n                if (counter > bineval) {")),
    bug("sr-directed-d", "C10", (MQ, "                    double fe = f(x_from_t(e));\n                    evaluations++;\n", "                    double fe = f(x_from_t(e));\n                    if (fe > fc) evaluations++;\n")),
    bug("sr-scatter-inner", "C10", (MQ, "while (i < intervals && evaluations < integration_eval_limit) {", "while (i < intervals) {", 0)),
    bug("sr-directed-last", "C10", (MQ, "                while (fc <= std::numeric_limits<double>::epsilon() && \n                       evaluations < integration_eval_limit &&\n", "                while (fc <= std::numeric_limits<double>::epsilon() && \n")),
    bug("sr-initial3", "C10", (MQ, "            unsigned int evaluations = 2;\n", "            unsigned int evaluations = 1;\n", 3)),
    bug("mq-reset-miss", "C10", (MQ, "    stats.nans = 0;\n", "")),
    same("mq-r-helper", (MQ, "        MAQ_RESULT MAQ(std::function<double (double)> integrand) \n        {", "        static MAQ_RESULT undefined(const char *what, unsigned int counter)\n        {\n            BOOST_LOG_TRIVIAL(fatal) << Context::GetText() << what;\n#pragma omp critical\n            {\n                stats.nans++;\n                stats.total_integrations_evals += counter;\n            }\n            return {NAN, false, counter};\n        }\n\n        MAQ_RESULT MAQ(std::function<double (double)> integrand) \n        {"),
         (MQ, "                BOOST_LOG_TRIVIAL(fatal) << Context::GetText() << \"; fb is NAN\";\n" + NANS + "                return {NAN, false, counter};\n", "                return undefined(\"; fb is NAN\", counter);\n"),
         (MQ, "                BOOST_LOG_TRIVIAL(fatal) << Context::GetText() << \"; fc is NAN\";\n" + NANS + "                return {NAN, false, counter};\n", "                return undefined(\"; fc is NAN\", counter);\n")),
    same("mq-r-atomic", (MQ, CRIT + "            stats.calls++;\n", "#pragma omp atomic\n            stats.calls++;\n")),
    same("mq-r-forloop", (MQ, "            while (!region_stack.empty()) {\n                counter++;\n                if (counter > maxeval) {", "            for (; !region_stack.empty(); ) {\n                if (++counter > maxeval) {")),
    same("mq-r-merge", (MQ, "            if (success) {\n" + CRIT + "                stats.successes++;\n            } else {\n" + CRIT + "                stats.number_integration_fails++;\n            \n            }\n" + CRIT + "            stats.total_integrations_evals += counter;\n",
         CRIT + "            {\n                if (success) {\n                    ++stats.successes;\n                } else {\n                    ++stats.number_integration_fails;\n                }\n                stats.total_integrations_evals = stats.total_integrations_evals + counter;\n            }\n")),
    same("mq-r-lambda", (MQ, "            double fa = integrand(x_from_t(a))/(a == 0 ? 1 : a*a);", "            auto scaled = [&integrand](double t) { return integrand(x_from_t(t)) / (t * t); };\n            double fa = integrand(x_from_t(a))/(a == 0 ? 1 : a*a);"), (MQ, "            double fc = integrand(x_from_t(c))/(c*c);\n            if", "            double fc = scaled(c);\n            if"), (MQ, "                double fd = integrand(x_from_t(d))/(d*d);\n                double fe = integrand(x_from_t(e))/(e*e);\n", "                double fd = scaled(d);\n                double fe = scaled(e);\n")),
    same("mq-r-search-helper", (MQ, "        search_result_t binary_subdivision(", "        static bool found(double y) { return y > std::numeric_limits<double>::epsilon(); }\n\n        search_result_t binary_subdivision("),
         (MQ, "                while (evaluations < integration_eval_limit && fc <= std::numeric_limits<double>::epsilon()) {\n                    for (int i=1; i < intervals && evaluations < integration_eval_limit; i += 2) {\n                        c = float(i)/intervals;", "                while (!found(fc) && evaluations < integration_eval_limit) {\n                    for (int i=1; i < intervals; i += 2) {\n                        if (evaluations >= integration_eval_limit) break;\n                        c = float(i)/intervals;")),
    same("mq-r-lambda-count", (MQ, "            double fb = f(x_from_t(b));\n            double fc = f(x_from_t(c));\n    \n            unsigned int evaluations = 2;\n", "            unsigned int evaluations = 0;\n            auto at = [&](double t) { evaluations++; return f(x_from_t(t)); };\n            double fb = at(b);\n            double fc = at(c);\n", 4)),
    same("mq-r-reset", (MQ, "    stats.max_successful_search = 0;\n    stats.number_search_fails = 0;\n    stats.total_search_evals = 0;\n", "    stats.max_successful_search = stats.number_search_fails = 0;\n    stats.total_search_evals = 0;\n")),
    same("mq-r-reset-all", (MQ, "    stats.max_successful_integration = 0;\n    stats.number_integration_fails = 0;\n    stats.total_integrations_evals = 0;\n\n    stats.max_successful_search = 0;\n    stats.number_search_fails = 0;\n    stats.total_search_evals = 0;\n\n    stats.calls = 0;\n    stats.successes = 0;\n    stats.nans = 0;\n", "    stats = IntegrationStats();\n")),
    # --- settings
    bug("se-tol-any", "C11", (MQ, "            if (tol > 0.0) {\n                tolerance = tol;", "            if (tol >= 0.0) {\n                tolerance = tol;")),
    bug("se-tol-nan", "C11", (MQ, "            if (tol > 0.0) {\n                tolerance = tol;\n            } else {", "            if (!(tol <= 0.0)) {\n                tolerance = tol;\n            } else {")),
    bug("se-limit-other", "C11", (MQ, "                integration_search_limit = evals;", "                integration_eval_limit = evals;")),
    bug("se-limit-unchecked", "C11", (MQ, "            if (evals > 0) {\n                integration_eval_limit = evals;\n            } else {", "            integration_eval_limit = evals;\n            if (evals == 0) {")),
    bug("se-default-swap", "C11", (MQ, "            integration_method = METHOD_DEFAULT;\n        }\n\n        void IntegrationSettings::Set_Tol", "            integration_method = SCATTERED;\n        }\n\n        void IntegrationSettings::Set_Tol")),
    bug("se-reset-misses", "C11", (MQ, "            IntegrationSettings::integration_search_limit = INTEGRATION_SEARCH_LIMIT_DEFAULT;\n            IntegrationSettings::integration_method", "            IntegrationSettings::integration_method")),
    bug("se-getter", "C11", (MQ, "            return integration_search_limit;", "            return integration_eval_limit;")),
    bug("se-initial", "C11", (MQ, "integration_search_limit = INTEGRATION_SEARCH_LIMIT_DEFAULT;\n        double", "integration_search_limit = INTEGRATION_EVAL_LIMIT_DEFAULT / 2;\n        double")),
    bug("se-clamp", "C11", (MQ, "            if (evals > 0) {\n                integration_search_limit = evals;\n            } else {", "            integration_search_limit = evals > 0 ? evals : 1;\n            if (evals == 0) {")),
    same("se-r-early", (MQ, "            if (tol > 0.0) {\n                tolerance = tol;\n            } else {\n                BOOST", "            if (0.0 < tol) {\n                tolerance = tol;\n                return;\n            }\n            {\n                BOOST")),
    same("se-r-tern", (MQ, "            if (evals > 0) {\n                integration_eval_limit = evals;\n            } else {", "            integration_eval_limit = evals >= 1 ? evals : integration_eval_limit;\n            if (evals == 0) {")),
    same("se-r-resetcalls", (MQ, "            IntegrationSettings::integration_eval_limit = INTEGRATION_EVAL_LIMIT_DEFAULT;\n            IntegrationSettings::integration_search_limit = INTEGRATION_SEARCH_LIMIT_DEFAULT;\n            IntegrationSettings::integration_method = METHOD_DEFAULT;\n", "            Use_Default_Integration_Eval_Limit();\n            Use_Default_Integration_Search_Limit();\n            Use_Default_Method();\n")),
    same("se-r-helper", (MQ, "        void IntegrationSettings::Set_Integration_Eval_Limit(unsigned int evals)\n        {\n            if (evals > 0) {\n                integration_eval_limit = evals;", "        static bool valid(unsigned int evals) { return evals != 0; }\n\n        void IntegrationSettings::Set_Integration_Eval_Limit(unsigned int evals)\n        {\n            if (valid(evals)) {\n                integration_eval_limit = evals;")),
]
