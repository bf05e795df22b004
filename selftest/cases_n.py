"""Lists with elements never set; parts set later."""
G = "src/comp_group.cpp"
R = "src/relationships.h"
S = "src/structure.h"
P = "src/pyslatcore.cpp"


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


DS = "results[i] = pDS_IM_calc(std::pair<int, double>(i, im));"
DEM = "            demolition = new_demolition;"
COL = "            collapse = std::make_shared<LogNormalDist>(new_collapse);"
L0 = "results[0] = LogNormalDist(std::make_shared<SLAT::LogNormalDist>(losses.first));"
H = "src/caching.h"
LAST = "if (in_process[v].count > 0) {"
FIRST = "if (in_process[v].count == 0) {\n                                in_process.erase(v);"
CASES = [
    case("n06-removed-while-one-waits", "C06", "alarm", (H, LAST, "if (in_process[v].count > 1) {")),
    case("n06-removed-when-waited-for", "C06", "alarm", (H, LAST, "if (in_process[v].count <= 0) {")),
    case("n06-test-turned", "C06", "quiet", (H, LAST, "if (!(in_process[v].count < 1)) {")),
    case("n06-test-kept", "C06", "quiet", (H, LAST, "const bool more = in_process[v].count != 0;\n                            if (more) {")),

    case("n23-no-state-stored", "C23", "alarm", (G, DS, "(void)i;")),
    case("n23-generate", "C23", "quiet", (G, DS, "{ size_t k = 0; std::generate(results.begin(), results.end(), [this, im, &k]() { return pDS_IM_calc(std::pair<int, double>(k++, im)); }); }")),
    case("n24-demolition-not-kept", "C24", "alarm", (R, DEM, "")),
    case("n24-cost-swapped", "C24", "alarm", (S, "rebuild_cost = dist", "demolition_cost = dist")),
    case("n24-collapse-kept-there", "C24", "alarm", (R, COL, COL.replace("collapse = ", "demolition = ", 1))),
    case("n24-copy-then-swap", "C24", "quiet", (R, COL, "std::shared_ptr<LogNormalDist> d = std::make_shared<LogNormalDist>(); *d = new_collapse; std::swap(collapse, d);")),
    case("n24-temporary", "C24", "quiet", (S, "rebuild_cost = dist", "this->rebuild_cost = LogNormalDist(dist)")),
    case("n25-element-unset", "C25", "alarm", (P, L0, "")),
    case("n25-front", "C25", "quiet", (P, L0, L0.replace("results[0]", "results.front()"))),
    case("n25-begin", "C25", "quiet", (P, L0, L0.replace("results[0]", "*results.begin()"))),
    case("n25-swap", "C25", "quiet", (P, L0, "{ LogNormalDist x(std::make_shared<SLAT::LogNormalDist>(losses.first)); std::swap(results[0], x); }")),
]


SD = "        if (E_error) std::rethrow_exception(E_error);\n        if (sd_error) std::rethrow_exception(sd_error);\n\n        return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(E, sd_ln);"
LOOP = "for (size_t i=0; i < N; i++) {\n            if (errors[i]) std::rethrow_exception(errors[i]);\n        }"
B = "src/structure.cpp"


def c26(i, want, *e): CASES.append(case("n26-" + i, "C26", want, *e))


c26("other-condition", "alarm", (G, SD, SD.replace("if (sd_error)", "if (sd_error && std::isnan(E))")))
c26("returns-first", "alarm", (G, SD, "        if (std::isnan(E)) return LogNormalDist();\n" + SD))
c26("not-the-first", "alarm", (B, LOOP, LOOP.replace("i=0", "i=1")))
c26("not-the-last", "alarm", (B, LOOP, LOOP.replace("i < N", "i + 1 < N")))
c26("in-other-branch", "alarm", (G, SD, SD.replace("        if (E_error)", "        if (count > 1) {\n        if (E_error)").replace("(sd_error);\n\n", "(sd_error);\n        }\n")))
c26("else-if", "quiet", (G, SD, SD.replace("        if (sd_error)", "        else if (sd_error)")))
c26("none-returns", "quiet", (G, SD, "        if (!E_error && !sd_error) return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(E, sd_ln);\n" + SD))
c26("null-compare", "quiet", (G, SD, SD.replace("if (sd_error)", "if (sd_error != nullptr)").replace("if (E_error)", "if (nullptr != E_error)")))
c26("ternary", "quiet", (G, SD, SD.replace("        if (E_error) std::rethrow_exception(E_error);\n        if (sd_error) std::rethrow_exception(sd_error);", "        std::exception_ptr e = E_error ? E_error : sd_error;\n        if (e) std::rethrow_exception(e);")))
c26("range-for", "quiet", (B, LOOP, "for (auto &e : errors) {\n            if (e) std::rethrow_exception(e);\n        }"))
c26("find", "quiet", (B, LOOP, "auto e = std::find_if(errors.begin(), errors.end(), [](const std::exception_ptr &x) { return x != nullptr; });\n        if (e != errors.end()) std::rethrow_exception(*e);"))
c26("lambda-after", "quiet", (G, SD, SD.replace("        if (E_error) std::rethrow_exception(E_error);\n        if (sd_error) std::rethrow_exception(sd_error);", "        auto pass = [](const std::exception_ptr &e) { if (e) std::rethrow_exception(e); };\n        pass(E_error);\n        pass(sd_error);")))
c26("while", "quiet", (B, LOOP, "size_t i = 0;\n        while (i < N) {\n            if (errors[i]) std::rethrow_exception(errors[i]);\n            ++i;\n        }"))


DROP = "                cg->remove_callbacks(components[i]->second);\n                components.erase(components.begin()+i);"
CASES += [case("n04-erased-then-removed", "C04", "alarm", (B, DROP, "                components.erase(components.begin()+i);\n                if (i < components.size()) cg->remove_callbacks(components[i]->second);")),
          case("n04-id-kept-then-erased", ["C04", "C02"], "quiet", (B, DROP, "                const int id = components[i]->second;\n                components.erase(components.begin()+i);\n                cg->remove_callbacks(id);")),
          case("n04-entry-kept-then-erased", ["C04", "C02"], "quiet", (B, DROP, "                std::shared_ptr<CG_ENTRY> entry = components[i];\n                components.erase(components.begin()+i);\n                cg->remove_callbacks(entry->second);")),
          case("n04-every-one", ["C04", "C02"], "quiet", (B, DROP + "\n                this->Clear_Cache();\n                break;", DROP + "\n                this->Clear_Cache();\n                i--;"))]
