CG, RH, RL, FN, ST, RP = "src/comp_group.cpp", "src/relationships.h", "src/relationships.cpp", "src/functions.cpp", "src/structure.cpp", "src/replaceable.h"
ALL4 = ["C01", "C02", "C03", "C04"]


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


CASES = [
    case("cg-drop-clear-in-cost-changed", "C02", "alarm", (CG, "                    this->E_annual_cost.ClearCache();\n", "", 0)),
    case("cg-frag-replaced-no-store", "C03", "alarm", (CG, "                this->frag_fn = new_frag_fn;\n", "")),
    case("cg-frag-replaced-wrong-field", "C03", "alarm", (CG, "this->cost_fn = new_cost_fn;", "if (!this->delay_fn) this->cost_fn = new_cost_fn;")),
    case("cg-dtor-wrong-id", "C04", "alarm", (CG, "delay_fn->remove_callbacks(delay_fn_callback_id);", "delay_fn->remove_callbacks(cost_fn_callback_id);")),
    case("cg-dtor-missing", "C04", "alarm", (CG, "        frag_fn->remove_callbacks(frag_fn_callback_id);\n", "")),
    case("cg-dtor-cond", "C04", "alarm", (CG, "        if (delay_fn) {\n            delay_fn->remove", "        if (delay_fn && cost_fn) {\n            delay_fn->remove")),
    case("im-replaced-no-notify", "C02", "alarm", (RL, "                this->f = new_f;\n                this->notify_change();", "                this->f = new_f;")),
    case("st-remove-no-unsub", "C04", "alarm", (ST, "                cg->remove_callbacks(components[i]->second);\n", "")),
    case("st-dtor-from-1", "C04", "alarm", (ST, "for (size_t i=0; i < components.size(); i++) {\n            components[i]->first->remove", "for (size_t i=1; i < components.size(); i++) {\n            components[i]->first->remove")),
    case("st-entry-pin", "C03", "alarm", (ST, "                entry->first = new_cg;\n", "                if (entry->second == 0) entry->first = new_cg;\n")),
    case("repl-skip-one", "C03", "alarm", (RP, "                it->second.replace_cb(replacement);\n", "                if (it->first % 2) it->second.replace_cb(replacement);\n")),
    case("repl-notify-first", "C02", "alarm", (RP, "                it->second.changed_cb();\n", "                it->second.changed_cb();\n                if (it->first == 0) break;\n")),
    case("repl-own-counter", "C03", "alarm", (RP, "int result = ++id_counter;", "int result = (int)callbacks.size() + 1;")),
    # behaviour kept
    case("cg-helper", ALL4, "quiet",
         (CG, "            [this] (void) {\n                this->E_cost_IM.ClearCache();\n                this->SD_ln_cost_IM.ClearCache();\n                this->E_delay_IM.ClearCache();\n                this->SD_ln_delay_IM.ClearCache();\n                this->E_annual_cost.ClearCache();\n                this->lambda_cost.ClearCache();\n                this->cost_EDP_dist.ClearCache();\n                this->delay_EDP_dist.ClearCache();\n                this->Rate.ClearCache();\n                this->notify_change();\n            },\n            [this] (std::shared_ptr<EDP>", "            [this] (void) { this->clear_all(); this->notify_change(); },\n            [this] (std::shared_ptr<EDP>"),
         (CG, "    double CompGroup::E_cost_EDP(double edp)\n", "    void CompGroup::clear_all(void) {\n                this->E_cost_IM.ClearCache();\n                this->SD_ln_cost_IM.ClearCache();\n                this->E_delay_IM.ClearCache();\n                this->SD_ln_delay_IM.ClearCache();\n                this->E_annual_cost.ClearCache();\n                this->lambda_cost.ClearCache();\n                this->cost_EDP_dist.ClearCache();\n                this->delay_EDP_dist.ClearCache();\n                this->Rate.ClearCache();\n   }\n    double CompGroup::E_cost_EDP(double edp)\n"),
         ("src/comp_group.h", "        ~CompGroup();", "        void clear_all(void);\n        ~CompGroup();")),
    case("cg-dtor-loop", ALL4, "quiet",
         (CG, "        if (delay_fn) {\n            delay_fn->remove_callbacks(delay_fn_callback_id);\n        }", "        const auto drop = [] (std::shared_ptr<LossFn> f, int id) { if (f) f->remove_callbacks(id); };\n        drop(delay_fn, delay_fn_callback_id);")),
    case("st-dtor-rangefor", ALL4, "quiet",
         (ST, "for (size_t i=0; i < components.size(); i++) {\n            components[i]->first->remove_callbacks(components[i]->second);", "for (auto &c : components) {\n            c->first->remove_callbacks(c->second);")),
    case("st-dtor-backwards", ALL4, "quiet",
         (ST, "for (size_t i=0; i < components.size(); i++) {\n            components[i]->first->remove_callbacks(components[i]->second);", "for (size_t i=components.size(); i > 0; i--) {\n            components[i-1]->first->remove_callbacks(components[i-1]->second);")),
    case("st-remove-iter", ALL4, "quiet",
         (ST, "        for (size_t i=0; i < components.size(); i++) {\n            if (components[i]->first == cg) {\n                std::cout << \"REMOVING \" << components[i]->first << std::endl;\n                cg->remove_callbacks(components[i]->second);\n                components.erase(components.begin()+i);",
              "        for (auto it=components.begin(); it != components.end(); ++it) {\n            if ((*it)->first == cg) {\n                std::cout << \"REMOVING \" << (*it)->first << std::endl;\n                cg->remove_callbacks((*it)->second);\n                components.erase(it);")),
    case("repl-rangefor", ALL4, "quiet",
         (RP, "for (auto it=callbacks.begin(); it != callbacks.end(); it++) {\n                it->second.changed_cb();", "for (auto &entry : callbacks) {\n                entry.second.changed_cb();")),
    case("repl-two-loops", ALL4, "quiet",
         (RP, "            for (auto it=callbacks.begin(); it != callbacks.end();) {\n                it->second.replace_cb(replacement);\n                it = callbacks.erase(it);\n            }", "            for (auto &entry : callbacks) {\n                entry.second.replace_cb(replacement);\n            }\n            callbacks.clear();")),
    case("repl-copyloop", ALL4, "quiet",
         (RP, "            successor->callbacks.insert(callbacks.begin(), callbacks.end());", "            for (const auto &cb : callbacks) successor->callbacks[cb.first] = cb.second;")),
    case("im-initlist", ALL4, "quiet",
         (RL, "        this->name = name;\n        \n        f = func;\n        callback_id", "        this->name = std::move(name);\n        this->f = func;\n        auto &target = *this->f;\n        callback_id"),
         (RL, "callback_id = f->add_callbacks(\n            [this] (void) {\n                this->CollapseRate.ClearCache();", "callback_id = target.add_callbacks(\n            [this] (void) {\n                this->CollapseRate.ClearCache();")),
]
