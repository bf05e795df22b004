"""C30: the caches."""
CH, CA = "src/caching.h", "src/caching.cpp"


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


def bug(id, *e): return case(id, "C30", "alarm", *e)
def same(id, *e): return case(id, ["C30", "C05", "C06", "C08", "C01"], "quiet", *e)


DUPF = """                            if (cache.count(v) != 0) {
                                std::cout << "DUPLICATE (f): " << name << " at " << v << std::endl;
                                std::cout << in_process[v].count << std::endl;
                                raise(SIGINT);
                            }
"""
SAVE = "                            cache[v] = result; // Save the result\n"
OUT = """                    T result = cache[v];
                    omp_unset_lock(&lock);
                    //Context::PopText();
                    return result;
"""
AFTER = """                            if (cache.count(v) == 0) {
                                omp_unset_lock(&lock);
                                return func(v);
                            }
"""
VAL = """                        cached_value = result;
                        cache_valid = true;
"""
VOUT = """                T result = cached_value;
                omp_unset_lock(&lock);
                //Context::PopText();
                return result;
"""
VAFTER = """                        if (!cache_valid) {
                            omp_unset_lock(&lock);
                            return func();
                        }
"""
CLEARF = """                omp_set_lock(&lock);
                cache.clear(); 
                omp_unset_lock(&lock);
"""
CLEARV = """                omp_set_lock(&lock);
                cache_valid = false;
                omp_unset_lock(&lock);
"""
LOOP = """            for (auto it=Private::caches.begin(); it != Private::caches.end(); it++) {
                it->second();
            }
"""
ADDC = """                Caching::Private::Add_Cache(this, [this] (void) { 
                        this->ClearCache(); });
            };
"""
CASES = [
    bug("k-no-recheck", (CH, AFTER, "")),
    bug("k-recheck-wrong", (CH, AFTER, AFTER.replace("cache.count(v) == 0", "cache.size() == 0"))),
    bug("k-key-rounded", (CH, SAVE, "                            cache[(float)v] = result;\n")),
    bug("k-abs", (CH, "result = func(v);\n                            } catch", "result = func(std::abs(v));\n                            } catch")),
    bug("k-float-keys", (CH, "std::unordered_map<V, T> cache;", "std::unordered_map<int, T> cache;")),
    bug("k-swallow", (CH, "                                omp_unset_lock(&lock);\n                                throw;\n                            }\n                            \n                            omp_set_lock(&lock); // Get object lock",
                      "                                omp_unset_lock(&lock);\n                                result = T();\n                            }\n                            \n                            omp_set_lock(&lock); // Get object lock")),
    bug("k-unlock-first", (CH, OUT, "                    omp_unset_lock(&lock);\n                    return cache[v];\n")),
    bug("k-default-made", (CH, "                omp_set_lock(&lock);\n                total_calls++;  // For development diagnostics\n                \n", "                omp_set_lock(&lock);\n                total_calls++;\n                if (total_calls > 5) cache[v];\n", 0)),
    bug("k-v-no-recheck", (CH, VAFTER, "")),
    bug("k-v-flag-first", (CH, "                        in_process = true;\n                        omp_set_lock(&waiting_lock);", "                        in_process = true;\n                        cache_valid = true;\n                        omp_set_lock(&waiting_lock);")),
    bug("k-v-flag-on-failure", (CH, "                            omp_set_lock(&lock);\n                            in_process = false;\n                            omp_unset_lock(&waiting_lock);\n                            omp_unset_lock(&lock);\n                            throw;", "                            omp_set_lock(&lock);\n                            in_process = false;\n                            cache_valid = true;\n                            omp_unset_lock(&waiting_lock);\n                            omp_unset_lock(&lock);\n                            throw;")),
    bug("k-v-value-not-saved", (CH, VAL, "                        if (in_process) cached_value = result;\n                        cache_valid = true;\n".replace("if (in_process)", "if (hits == 0)"))),
    bug("k-v-hits", (CH, "                if (!cache_valid) {\n                    /*", "                if (!cache_valid && hits < 3) {\n                    /*")),
    bug("k-v-out-unlocked", (CH, VOUT, "                omp_unset_lock(&lock);\n                T result = cached_value;\n                return result;\n")),
    bug("k-new-valid", (CH, "                cache_valid = false;\n                total_calls = 0;", "                cache_valid = true;\n                total_calls = 0;")),
    bug("k-new-unset", (CH, "                cache_valid = false;\n                total_calls = 0;", "                total_calls = 0;")),
    bug("k-clear-not-all", (CH, CLEARF, CLEARF.replace("cache.clear(); ", "if (in_process.empty()) cache.clear();"))),
    bug("k-clear-nothing", (CH, CLEARF, CLEARF.replace("cache.clear(); ", "in_process.clear();"))),
    bug("k-clear-v", (CH, CLEARV, CLEARV.replace("cache_valid = false;", "if (!in_process) cache_valid = false;"))),
    bug("k-register-name", (CH, ADDC, "                if (cache_active) " + ADDC.lstrip(), 0)),
    bug("k-register-member", (CH, ADDC, ADDC.replace("(this, ", "(nullptr, "), 0)),
    bug("k-register-idle", (CH, ADDC, ADDC.replace("this->ClearCache()", "this->hits = 0"), 1)),
    bug("k-all-first", (CA, LOOP, LOOP.replace("it->second();", "it->second();\n                if (it->first == nullptr) break;"))),
    bug("k-all-some", (CA, LOOP, LOOP.replace("it->second();", "if (it->first != nullptr) it->second();"))),
    same("k-add-once", (CA, "                caches[cache] = clear_func;\n", "                if (caches.count(cache) == 0) caches[cache] = clear_func;\n")),
    bug("k-remove-all", (CA, "                caches.erase(cache);\n", "                caches.clear();\n")),
    bug("k-dtor-not", (CH, "            ~CachedValue() {\n                Caching::Private::Remove_Cache(this);", "            ~CachedValue() {\n                if (cache_valid) Caching::Private::Remove_Cache(this);")),
    bug("k-nan-looked-up", (CH, "if (cache_active && !std::isnan(v)) {", "if (cache_active) {")),
    same("k-q-self-equal", (CH, "if (cache_active && !std::isnan(v)) {", "if (cache_active && v == v) {")),
    same("k-q-isnan-local", (CH, "if (cache_active && !std::isnan(v)) {", "const bool undefined = std::isnan(v);\n                if (!undefined && cache_active) {")),
    same("k-q-isnan-first", (CH, "if (cache_active && !std::isnan(v)) {", "if (std::isnan(v)) {\n                    omp_unset_lock(&lock);\n                    return func(v);\n                }\n                if (cache_active) {")),
    case("k-q-nan-stored-only", "C30", "quiet", (CH, "if (cache_active && !std::isnan(v)) {", "if (cache_active) {"), (CH, SAVE, SAVE + "                            if (std::isnan(v)) {\n                                in_process.erase(v);\n                                omp_unset_lock(&lock);\n                                return result;\n                            }\n")),
    same("k-q-find", (CH, "                    bool cached = cache.count(v) != 0;\n", "                    const bool cached = !(cache.count(v) == 0);\n")),
    same("k-q-find-it", (CH, OUT, "                    auto it = cache.find(v);\n                    T result = it->second;\n                    omp_unset_lock(&lock);\n                    return result;\n")),
    same("k-q-emplace", (CH, SAVE, "                            cache.emplace(v, result);\n")),
    same("k-q-at", (CH, OUT, OUT.replace("cache[v]", "cache.at(v)"))),
    same("k-q-local", (CH, OUT, "                    T remembered(cache[v]);\n                    omp_unset_lock(&lock);\n                    return remembered;\n")),
    same("k-q-no-dup", (CH, DUPF, "")),
    same("k-q-helper", (CH, SAVE, "                            this->save(v, result);\n"), (CH, "        private:\n            /// This will perform", "        private:\n            void save(V v, T result) { cache[v] = result; }\n            /// This will perform")),
    same("k-q-v-order", (CH, VAL, "                        cache_valid = true;\n                        cached_value = result;\n")),
    same("k-q-v-dirty", (CH, "!cache_valid", "unknown", 0), (CH, "!cache_valid", "unknown", 0), (CH, "if (cache_valid) {\n                            std::cout", "if (!unknown) {\n                            std::cout"), (CH, "cache_valid = true;", "unknown = false;"),
         (CH, "                cache_valid = false;\n                total_calls", "                unknown = true;\n                total_calls"), (CH, CLEARV, CLEARV.replace("cache_valid = false", "unknown = true")),
         (CH, "            bool cache_valid; ///", "            bool unknown; ///")),
    same("k-q-v-copy", (CH, VOUT, "                T copied;\n                copied = cached_value;\n                omp_unset_lock(&lock);\n                return copied;\n")),
    same("k-q-clear-swap", (CH, CLEARF, "                omp_set_lock(&lock);\n                std::unordered_map<V, T> empty;\n                cache.swap(empty);\n                omp_unset_lock(&lock);\n")),
    same("k-q-clear-assign", (CH, CLEARF, "                omp_set_lock(&lock);\n                cache = std::unordered_map<V, T>();\n                omp_unset_lock(&lock);\n")),
    same("k-q-range", (CA, LOOP, "            for (auto &entry : Private::caches) {\n                std::function<void (void)> &clear = entry.second;\n                clear();\n            }\n")),
    same("k-q-insert", (CA, "                caches[cache] = clear_func;\n", "                caches.erase(cache);\n                caches.insert(std::make_pair(cache, clear_func));\n")),
]
