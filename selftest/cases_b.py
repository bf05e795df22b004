CG, RH, RL, FN, ST, RP = "src/comp_group.cpp", "src/relationships.h", "src/relationships.cpp", "src/functions.cpp", "src/structure.cpp", "src/replaceable.h"
CH, CA, CX, MQ, FR, PY = "src/caching.h", "src/caching.cpp", "src/context.cpp", "src/maq.cpp", "src/fragility.cpp", "src/pyslatcore.cpp"
CONC = ["C05", "C06", "C08", "C15", "C26", "C07"]


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


CASES = [
    case("cf-throw-no-unlock", "C05", "alarm", (CH, "                                omp_unset_lock(&lock);\n                                throw;\n                            }\n                            \n                            omp_set_lock(&lock); // Get object lock", "                                throw;\n                            }\n                            \n                            omp_set_lock(&lock); // Get object lock")),
    case("cv-waiting-not-released", "C05", "alarm", (CH, "                            in_process = false;\n                            omp_unset_lock(&waiting_lock);\n                            omp_unset_lock(&lock);\n                            throw;", "                            in_process = false;\n                            omp_unset_lock(&lock);\n                            throw;")),
    case("cf-notry", "C05", "alarm", (CH, "                            T result;\n                            try {\n                                result = func(v);\n                            } catch (...) {\n                                // Let anyone waiting do the calculation\n                                omp_set_lock(&lock);\n                                if (in_process[v].count == 0) {\n                                    in_process.erase(v);\n                                } else {\n                                    omp_unset_lock(&in_process[v].lock);\n                                }\n                                omp_unset_lock(&lock);\n                                throw;\n                            }\n", "                            T result = func(v);\n")),
    case("cf-waiter-early-return", "C05", "alarm", (CH, "                            if (cache.count(v) == 0) {\n                                omp_unset_lock(&lock);\n                                return func(v);", "                            if (cache.count(v) == 0) {\n                                return func(v);")),
    case("cx-gettext-early", "C05", "alarm", (CX, "        omp_set_lock(&Context::lock);\n        std::stringstream result;", "        omp_set_lock(&Context::lock);\n        std::stringstream result;\n        if (instance->text_stack.size() == 0) return result.str();")),
    case("cx-pop-early", "C05", "alarm", (CX, "            std::cerr << \"stack already empty\" << std::endl;\n", "            std::cerr << \"stack already empty\" << std::endl;\n            return;\n")),
    case("rp-replace-early", "C05", "alarm", (RP, "            // The replacement keeps the clients it already has.\n            omp_set_lock(&successor->lock);", "            // The replacement keeps the clients it already has.\n            if (callbacks.empty()) return;\n            omp_set_lock(&successor->lock);")),
    case("rp-dead", "C05", "alarm", (RP, "            if (successor == this) return;\n\n            omp_set_lock(&lock);", "            omp_set_lock(&lock);")),
    case("cf-total-outside", "C06", "alarm", (CH, "                omp_set_lock(&lock);\n                total_calls++;  // For development diagnostics\n                \n                /*\n                 * Don't", "                total_calls++;  // For development diagnostics\n                omp_set_lock(&lock);\n                \n                /*\n                 * Don't")) if False else
    case("cf-clear-unlocked", "C06", "alarm", (CH, "                omp_set_lock(&lock);\n                cache.clear(); \n                omp_unset_lock(&lock);", "                cache.clear(); ")),
    case("cv-clear-unlocked", "C06", "alarm", (CH, "                omp_set_lock(&lock);\n                cache_valid = false;\n                omp_unset_lock(&lock);", "                cache_valid = false;")),
    case("cv-wrong-lock", "C06", "alarm", (CH, "                omp_set_lock(&lock);\n                cache_valid = false;\n                omp_unset_lock(&lock);", "                omp_set_lock(&waiting_lock);\n                cache_valid = false;\n                omp_unset_lock(&waiting_lock);")),
    case("cf-erase-always", "C06", "alarm", (CH, "                                if (in_process[v].count == 0) {\n                                    in_process.erase(v);\n                                } else {\n                                    omp_unset_lock(&in_process[v].lock);\n                                }\n                                omp_unset_lock(&lock);\n                                throw;", "                                omp_unset_lock(&in_process[v].lock);\n                                in_process.erase(v);\n                                omp_unset_lock(&lock);\n                                throw;")),
    case("cf-nocount", "C06", "alarm", (CH, "                            in_process[v].count++;\n", ""), (CH, "                            in_process[v].count--;\n", "")),
    case("cf-clear-inprocess", "C06", "alarm", (CH, "                cache.clear(); \n", "                cache.clear(); \n                in_process.clear();\n")),
    case("ca-remove-unlocked", "C06", "alarm", (CA, "                omp_set_lock(&lock);\n                caches.erase(cache);\n                omp_unset_lock(&lock);", "                caches.erase(cache);")),
    case("maq-stat-unlocked", "C06", "alarm", (MQ, "#pragma omp critical\n                stats.nans++;\n", "                stats.nans++;\n", 0)),
    case("cf-hits-after", "C06", "alarm", (CH, "                        // Record cache hit\n                        hits++;\n                    }\n", "                    }\n"), (CH, "                    T result = cache[v];\n                    omp_unset_lock(&lock);\n", "                    T result = cache[v];\n                    omp_unset_lock(&lock);\n                    hits++;\n")),
    case("rp-notify-unlocked", "C06", "alarm", (RP, "            omp_set_lock(&lock);\n            callbacks.erase(id);\n            omp_unset_lock(&lock);", "            callbacks.erase(id);")),
    case("cf-calc-under-lock", "C08", "alarm", (CH, "                    omp_unset_lock(&lock);\n                    T result = func(v);\n                    //Context::PopText();", "                    T result = func(v);\n                    omp_unset_lock(&lock);\n                    //Context::PopText();")),
    case("cv-calc-under-lock", "C08", "alarm", (CH, "                        if (!cache_valid) {\n                            omp_unset_lock(&lock);\n                            return func();", "                        if (!cache_valid) {\n                            T again = func();\n                            omp_unset_lock(&lock);\n                            return again;")),
    case("clear-order", "C08", "alarm", (CH, "                omp_set_lock(&lock);\n                cache.clear(); \n                omp_unset_lock(&lock);", "                omp_set_lock(&lock);\n                Caching::Private::Init_Caching();\n                Caching::Private::Add_Cache(this, [this] (void) { this->ClearCache(); });\n                cache.clear(); \n                omp_unset_lock(&lock);")),
    case("cv-wait-holding", "C08", "alarm", (CH, "                        omp_unset_lock(&lock);\n                        omp_set_lock(&waiting_lock);\n                        omp_unset_lock(&waiting_lock); // Release for anyone else who's waiting\n                        omp_set_lock(&lock); // Re-take the lock before returning the value\n", "                        omp_set_lock(&waiting_lock);\n                        omp_unset_lock(&waiting_lock); // Release for anyone else who's waiting\n")),
    case("cf-wait-holding", "C08", "alarm", (CH, "                            omp_unset_lock(&lock);\n                            omp_set_lock(calc_lock);\n", "                            omp_set_lock(calc_lock);\n                            omp_unset_lock(&lock);\n")),
    case("par-shared-acc", "C15", "alarm", (ST, "                dists[i] = components[i]->first->CostDist_IM(im);", "                dists[0] = components[i]->first->CostDist_IM(im);")),
    case("par-shared-tmp", "C15", "alarm", (RL, "        std::vector<double> result(im.size());\n#pragma omp parallel for\n        for (size_t i=0; i < im.size(); i++) {\n            result[i] = pRepair(im[i]);", "        std::vector<double> result(im.size());\n        double p;\n#pragma omp parallel for\n        for (size_t i=0; i < im.size(); i++) {\n            p = pRepair(im[i]);\n            result[i] = p;")),
    case("par-pushback", "C15", "alarm", (RL, "        std::vector<double> result(im.size());\n#pragma omp parallel for\n        for (size_t i=0; i < im.size(); i++) {\n            result[i] = pRepair(im[i]);", "        std::vector<double> result;\n#pragma omp parallel for\n        for (size_t i=0; i < im.size(); i++) {\n            result.push_back(pRepair(im[i]));")),
    case("par-sections-share", "C15", "alarm", (CG, "                    sd_ln = SD_ln_cost_IM(im);\n", "                    sd_ln = std::isnan(E) ? NAN : SD_ln_cost_IM(im);\n")),
    case("par-neighbour", "C15", "alarm", (RL, "            result[i] = pRepair(im[i]);", "            result[i] = (i > 0 && im[i] == im[i-1]) ? result[i-1] : pRepair(im[i]);")),
    case("list-wrong-query", "C07", "alarm", (RL, "            result[i] = pRepair(im[i]);", "            result[i] = 1.0 - pCollapse(im[i]);")),
    case("list-off-by-one", "C07", "alarm", (RL, "        for (size_t i = 0; i < base_values.size(); i++) {\n            result[i] = Median(", "        for (size_t i = 1; i < base_values.size(); i++) {\n            result[i] = Median(")),
    case("list-short", "C07", "alarm", (PY, "    for (size_t i=0; i < x.size(); i++) {\n        result[i] = SD_ln(x[i]);", "    for (size_t i=0; i < x.size() - 1; i++) {\n        result[i] = SD_ln(x[i]);")),
    case("list-delegates", "C07", "alarm", (PY, "std::vector<double> IM::pDemolition(std::vector<double> im)\n{\n    return relationship->pDemolition(im);", "std::vector<double> IM::pDemolition(std::vector<double> im)\n{\n    return relationship->pCollapse(im);")),
    case("list-swap", "C07", "alarm", (PY, "        result[i] = MeanLn(x[i]);", "        result[i] = Median(x[i]);")),
    case("list-years", "C07", "alarm", (ST, "result[i] = E_cost(years[i], discount_rate);", "result[i] = E_cost(years[0], discount_rate);")),
    case("par-no-try", "C26", "alarm", (ST, "            try {\n                dists[i] = components[i]->first->CostDist_IM(im);\n            } catch (...) {\n                errors[i] = std::current_exception();\n            }\n", "            dists[i] = components[i]->first->CostDist_IM(im);\n")),
    case("par-norethrow", "C26", "alarm", (CG, "        if (sd_error) std::rethrow_exception(sd_error);\n", "")),
    case("par-new-throw", "C26", "alarm", (RH, "            return pCollapse", "            if (im < 0) throw std::invalid_argument(\"im\");\n            return pCollapse")) if False else
    case("par-new-throw", "C26", "alarm", (RL, "    double IM::lambda(double x)\n    {\n", "    double IM::lambda(double x)\n    {\n        if (x < 0) throw std::invalid_argument(\"x\");\n")),
    # behaviour kept
    case("k-list-pushback", CONC, "quiet", (RL, "        std::vector<double> result(im.size());\n#pragma omp parallel for\n        for (size_t i=0; i < im.size(); i++) {\n            result[i] = pRepair(im[i]);\n        }\n", "        std::vector<double> result;\n        result.reserve(im.size());\n        for (double x : im) result.push_back(pRepair(x));\n")),
    case("k-list-local", CONC, "quiet", (RL, "            result[i] = pRepair(im[i]);", "            const double at = im[i];\n            double p = pRepair(at);\n            result[i] = p;")),
    case("k-list-inline", CONC, "quiet", (RL, "            result[i] = lambda(x[i]);", "            result[i] = f->ValueAt(x[i]);")),
    case("k-list-down", CONC, "quiet", (RL, "        for (size_t i=0; i < im.size(); i++) {\n            result[i] = pRepair(im[i]);", "        for (size_t i=im.size(); i > 0; i--) {\n            result[i-1] = pRepair(im[i-1]);")),
    case("k-list-transform", CONC, "quiet", (RL, "        std::vector<double> result(im.size());\n#pragma omp parallel for\n        for (size_t i=0; i < im.size(); i++) {\n            result[i] = pRepair(im[i]);\n        }\n", "        std::vector<double> result(im.size());\n        std::transform(im.begin(), im.end(), result.begin(), [this] (double x) { return pRepair(x); });\n"), (RL, "#include <iostream>\n", "#include <iostream>\n#include <algorithm>\n")),
    case("k-cf-helper", CONC, "quiet",
         (CH, "                    if (in_process[v].count == 0) {\n                                    in_process.erase(v);", "                    if (in_process[v].count == 0) {\n                                    in_process.erase(v);")) if False else
    case("k-cf-helper", CONC, "quiet",
         (CH, "                                if (in_process[v].count == 0) {\n                                    in_process.erase(v);\n                                } else {\n                                    omp_unset_lock(&in_process[v].lock);\n                                }\n                                omp_unset_lock(&lock);\n                                throw;", "                                Finished(v);\n                                omp_unset_lock(&lock);\n                                throw;"),
         (CH, "                            if (in_process[v].count == 0) {\n                                in_process.erase(v);\n                            } else {\n                                omp_unset_lock(&in_process[v].lock);\n                            }\n                        }\n", "                            Finished(v);\n                        }\n"),
         (CH, "        private:\n            /// This will perform the calculation that we're caching.", "        private:\n            void Finished(V v) {\n                auto it = in_process.find(v);\n                if (it->second.count == 0) {\n                    in_process.erase(it);\n                } else {\n                    omp_unset_lock(&it->second.lock);\n                }\n            }\n            /// This will perform the calculation that we're caching.")),
    case("k-raii", CONC, "quiet",
         (CH, "                omp_set_lock(&lock);\n                cache.clear(); \n                omp_unset_lock(&lock);", "                Guard g(lock);\n                cache.clear(); "),
         (CH, "                omp_set_lock(&lock);\n                cache_valid = false;\n                omp_unset_lock(&lock);", "                Guard g(lock);\n                cache_valid = false;"),
         (CH, "        template <class T, class V> class CachedFunction {", "        class Guard {\n        public:\n            Guard(omp_lock_t &l) : l(l) { omp_set_lock(&l); }\n            ~Guard() { omp_unset_lock(&l); }\n        private:\n            omp_lock_t &l;\n        };\n        template <class T, class V> class CachedFunction {")),
    case("k-repl-mutex", CONC, "quiet",
         (RP, "        omp_lock_t lock;\n", "        std::mutex lock;\n"), (RP, "            omp_init_lock(&lock);\n", ""),
         (RP, "            omp_set_lock(&lock);\n            int result = ++id_counter;\n            callbacks[result] = {changed, replace};\n            omp_unset_lock(&lock);\n", "            std::lock_guard<std::mutex> g(lock);\n            int result = ++id_counter;\n            callbacks[result] = {changed, replace};\n"),
         (RP, "            omp_set_lock(&lock);\n            callbacks.erase(id);\n            omp_unset_lock(&lock);\n", "            std::lock_guard<std::mutex> g(lock);\n            callbacks.erase(id);\n"),
         (RP, "            omp_set_lock(&lock);\n            for (auto it=callbacks.begin(); it != callbacks.end(); it++) {\n                it->second.changed_cb();\n            }\n            omp_unset_lock(&lock);\n", "            std::lock_guard<std::mutex> g(lock);\n            for (auto it=callbacks.begin(); it != callbacks.end(); it++) {\n                it->second.changed_cb();\n            }\n"),
         (RP, "            omp_set_lock(&lock);\n            // The", "            std::unique_lock<std::mutex> g(lock);\n            // The"),
         (RP, "            omp_set_lock(&successor->lock);\n", "            successor->lock.lock();\n"),
         (RP, "            omp_unset_lock(&successor->lock);\n", "            successor->lock.unlock();\n"),
         (RP, "            omp_unset_lock(&lock);\n        }\n    };", "            g.unlock();\n        }\n    };"),
         (RP, "#include <map>\n", "#include <map>\n#include <mutex>\n")),
    case("k-err-first", CONC, "quiet",
         (ST, "        std::vector<std::exception_ptr> errors(N);\n#pragma omp parallel for\n        for (size_t i=0; i < N; i++) {\n            try {\n                dists[i] = components[i]->first->CostDist_IM(im);\n            } catch (...) {\n                errors[i] = std::current_exception();\n            }\n        }\n        for (size_t i=0; i < N; i++) {\n            if (errors[i]) std::rethrow_exception(errors[i]);\n        }\n",
          "        std::exception_ptr error;\n#pragma omp parallel for shared(error)\n        for (size_t i=0; i < N; i++) {\n            try {\n                auto &target = dists[i];\n                target = components[i]->first->CostDist_IM(im);\n            } catch (...) {\n#pragma omp critical\n                { if (!error) error = std::current_exception(); }\n            }\n        }\n        if (error) std::rethrow_exception(error);\n")),
    case("k-err-rangefor", CONC, "quiet",
         (ST, "        for (size_t i=0; i < N; i++) {\n            if (errors[i]) std::rethrow_exception(errors[i]);\n        }\n", "        for (auto &e : errors) {\n            if (e) std::rethrow_exception(e);\n        }\n")),
    case("k-maq-stats-helper", CONC, "quiet",
         (MQ, "#pragma omp critical\n                stats.nans++;\n", "                Count(stats.nans);\n", 0),
         (MQ, "    MAQ_RESULT MAQ(std::function", "    static void Count(unsigned int &counter)\n    {\n#pragma omp critical\n        counter++;\n    }\n\n    MAQ_RESULT MAQ(std::function")),
    case("k-par-lambda", CONC, "quiet", (RL, "        std::vector<double> result(im.size());\n#pragma omp parallel for\n        for (size_t i=0; i < im.size(); i++) {\n            result[i] = pRepair(im[i]);", "        std::vector<double> result(im.size());\n        auto each = [&] (size_t k) { result[k] = pRepair(im[k]); };\n#pragma omp parallel for\n        for (size_t i=0; i < im.size(); i++) {\n            each(i);")),
    case("k-n", CONC, "quiet", (RL, "        std::vector<double> result(im.size());\n#pragma omp parallel for\n        for (size_t i=0; i < im.size(); i++) {\n            result[i] = pRepair(im[i]);", "        const int n = (int)im.size();\n        std::vector<double> result(n);\n#pragma omp parallel for schedule(dynamic)\n        for (int i=0; i < n; ++i) {\n            result[i] = pRepair(im[i]);")),
]
