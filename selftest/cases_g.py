"""C17 to C20: the script interpreter and the Python wrapper."""
SI, PS, G4 = "src/SlatInterpreter.py", "src/pyslat.py", "src/slatParser.g4"
PY = ["C17"]


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


def bug(id, prop, *e): return case(id, prop, "alarm", *e)
def same(id, props, *e): return case(id, props, "quiet", *e)
def back(id, prop, h): return {"id": id, "prop": prop, "want": "alarm", "edits": [], "revert": h}


CASES = [
    back("g-rev-default-delay", "C17", "f34285c"),
    back("g-rev-probfn-vars", "C17", "e81c9e7"),
    back("g-rev-dict-keys", "C17", "81cfc22"),
    back("g-rev-integration-swap", "C17", "8fc4768"),
    back("g-rev-lin-loglog", "C17", "6768c37"),
    back("g-rev-edps", "C20", "19556ef"),
    back("g-rev-edp-lists", "C20", "79309d4"),
    # bugs
    bug("g-scalar2-swapped", "C17", (SI, "self._stack.append([value1, value2])", "self._stack.append([value2, value1])")),
    bug("g-linear-xy", "C17", (SI, "x_values.append(pair[0])\n            y_values.append(pair[1])\n        self._stack.append([x_values, y_values])\n\n    ## Exit a parse tree produced by slatParser#scalar.", "x_values.append(pair[1])\n            y_values.append(pair[0])\n        self._stack.append([x_values, y_values])\n\n    ## Exit a parse tree produced by slatParser#scalar.")),
    bug("g-median-is-mean", "C17", (SI, 'mu = "median(x)"\n                mu = pyslat.LOGNORMAL_MU_TYPE.MEDIAN_X', 'mu = "median(x)"\n                mu = pyslat.LOGNORMAL_MU_TYPE.MEAN_X')),
    bug("g-im-args", "C17", (SI, "im_id = ctx.ID(0).getText()\n        fn_id = ctx.ID(1).getText()", "im_id = ctx.ID(0).getText()\n        fn_id = ctx.ID(0).getText()")),
    bug("g-demolition-is-collapse", "C17", (SI, "pyslat.im.lookup(id).SetDemolition(dist)", "pyslat.im.lookup(id).SetCollapse(dist)")),
    bug("g-compgroup-adj", "C17", (SI, "delay_adj_factor = float(floats[1].getText())", "delay_adj_factor = float(floats[0].getText())")),
    bug("g-compgroup-one-adj", "C17", (SI, "if len(floats) > 0:\n            cost_adj_factor", "if len(floats) > 1:\n            cost_adj_factor")),
    bug("g-compgroup-cost-is-delay", "C17", (SI, "pyslat.lossfn.lookup(cost_id),\n", "pyslat.lossfn.lookup(delay_id or cost_id),\n")),
    bug("g-structure-once", "C17", (SI, "            s.AddCompGroup(pyslat.compgroup.lookup(g.getText()))\n", "        s.AddCompGroup(pyslat.compgroup.lookup(g.getText()))\n")),
    bug("g-rebuild-unused-sd", "C17", (SI, "pyslat.structure.lookup(id).setRebuildCost(pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd']))", "pyslat.structure.lookup(id).setRebuildCost(pyslat.MakeLogNormalDist(sd, options['mu'], mu, options['sd']))")),
    bug("g-print-append", "C17", (SI, "options['append'] = True", "options['append'] = False")),
    bug("g-lowrev", "C17", (SI, "search_method = pyslat.INTEGRATION_METHOD.LOW_FIRST_REVERSE_BINARY_SUBDIVISION", "search_method = pyslat.INTEGRATION_METHOD.REVERSE_BINARY_SUBDIVISION")),
    bug("g-nostderr", "C17", (SI, "pyslat.LogToStdErr(False)", "pyslat.LogToStdErr(True)")),
    bug("g-var-late", "C17", (SI, "        self._variables[id] = value\n", "        self._variables.setdefault(id, value)\n")),
    bug("g-title-order", "C17", (SI, "self._title.append(preprocess_string(ctx.STRING().getText()))", "self._title.insert(0, preprocess_string(ctx.STRING().getText()))")),
    bug("g-inputdir-dropped", "C17", (PS, "    global _Input_directory\n    _Input_directory = path\n", "    _Input_directory = path\n")),
    bug("g-lossfn-zero-full", "C17", (PS, "        if cost.function() == None:", "        if cost.function() == 0:")) if False else None,
    bug("g-var-of-command", "C17", (SI, "value = self._variables.get(variable)\n", "value = self._variables.get(variable) or 0\n")),
    bug("g-bilevel-order", "C17", (SI, "            data = self._stack.pop()\n            pyslat.bilevellossfn(id, data)", "            data = self._stack.pop()\n            pyslat.bilevellossfn(id, sorted(data))")),
    bug("g-import-cols", "C17", (PS, "d[0]", "d[1]", 0)) if False else None,
    bug("g-negative-float", "C17", (SI, "            value = float(ctx.FLOAT_VAL().getText())\n        elif ctx.var_ref() or", "            value = abs(float(ctx.FLOAT_VAL().getText()))\n        elif ctx.var_ref() or")),
    bug("g-scalar-int-trunc", "C17", (SI, "            value = float(ctx.FLOAT_VAL().getText())\n        elif ctx.var_ref() or", "            value = float(int(float(ctx.FLOAT_VAL().getText())))\n        elif ctx.var_ref() or")),
    bug("g-fragfn-order", "C17", (PS, "onsets.reverse()", "onsets.sort()")) if False else None,
    # the same
    same("g-same-helper", PY,
         (SI, "    ## Enter a parse tree produced by slatParser#loglog\n", "    def _columns(self):\n        x_values, y_values = [], []\n        for x, y in self._pop_stack():\n            x_values.append(x)\n            y_values.append(y)\n        return [x_values, y_values]\n\n    ## Enter a parse tree produced by slatParser#loglog\n"),
         (SI, "        values = self._pop_stack()\n        # Put x and y values into separate lists:\n        x_values = []\n        y_values = []\n        for pair in values:\n            x_values.append(pair[0])\n            y_values.append(pair[1])\n        self._stack.append([x_values, y_values])\n\n    # Enter", "        columns = self._columns()\n        self._stack.append(columns)\n\n    # Enter"),
         (SI, "        values = self._pop_stack()\n        # Put x and y values into separate lists:\n        x_values = []\n        y_values = []\n        for pair in values:\n            x_values.append(pair[0])\n            y_values.append(pair[1])\n        self._stack.append([x_values, y_values])\n\n    ## Exit a parse tree produced by slatParser#scalar.", "        columns = self._columns()\n        self._stack.append(columns)\n\n    ## Exit a parse tree produced by slatParser#scalar.")),
    same("g-same-comprehension", PY,
         (SI, "        x_values = []\n        y_values = []\n        for pair in values:\n            x_values.append(pair[0])\n            y_values.append(pair[1])\n        self._stack.append([x_values, y_values])\n\n    # Enter", "        self._stack.append([[p[0] for p in values], [p[1] for p in values]])\n\n    # Enter")),
    same("g-same-zip", PY,
         (SI, "        x_values = []\n        y_values = []\n        for pair in values:\n            x_values.append(pair[0])\n            y_values.append(pair[1])\n        self._stack.append([x_values, y_values])\n\n    # Enter", "        x_values, y_values = zip(*values)\n        self._stack.append([list(x_values), list(y_values)])\n\n    # Enter")),
    same("g-same-search-table", PY,
         (SI, """            if (ctx.integration_search_option().BINARY()):
                search_method = pyslat.INTEGRATION_METHOD.BINARY_SUBDIVISION
            elif ctx.integration_search_option().REVBIN():
                search_method = pyslat.INTEGRATION_METHOD.REVERSE_BINARY_SUBDIVISION
            elif ctx.integration_search_option().LOWREV():
                search_method = pyslat.INTEGRATION_METHOD.LOW_FIRST_REVERSE_BINARY_SUBDIVISION
            elif ctx.integration_search_option().SCATTERED():
                search_method = pyslat.INTEGRATION_METHOD.SCATTERED
            elif ctx.integration_search_option().DIRECTED():
                search_method = pyslat.INTEGRATION_METHOD.DIRECTED
            else:
""", """            search = ctx.integration_search_option()
            for token, search_method in [(search.BINARY(), pyslat.INTEGRATION_METHOD.BINARY_SUBDIVISION),
                                         (search.REVBIN(), pyslat.INTEGRATION_METHOD.REVERSE_BINARY_SUBDIVISION),
                                         (search.LOWREV(), pyslat.INTEGRATION_METHOD.LOW_FIRST_REVERSE_BINARY_SUBDIVISION),
                                         (search.SCATTERED(), pyslat.INTEGRATION_METHOD.SCATTERED),
                                         (search.DIRECTED(), pyslat.INTEGRATION_METHOD.DIRECTED)]:
                if token:
                    break
            else:
""")),
    same("g-same-print-dict", PY,
         (SI, """            if fntype.DETFN():
                object = pyslat.detfn.lookup(id)
            elif fntype.PROBFN():
                object = pyslat.probfn.lookup(id)
""", """            lookups = {"detfn": pyslat.detfn.lookup, "probfn": pyslat.probfn.lookup}
            if fntype.DETFN():
                object = lookups["detfn"](id)
            elif fntype.PROBFN():
                object = lookups["probfn"](id)
""")),
    same("g-same-dist-helper", PY,
         (SI, """        options = self._stack.pop()
        params = self._stack.pop()
        mu = params[0]
        sd = params[1]

        dist = pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd'])
        pyslat.im.lookup(id).SetCollapse(dist)
""", """        pyslat.im.lookup(id).SetCollapse(self._pop_dist())

    def _pop_dist(self):
        options = self._stack.pop()
        (mu, sd) = self._stack.pop()
        return pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd'])
""")),
    same("g-same-with-open", PY,
         (SI, """            if options.get('append'):
                f = open(destination, "a")
            else:
                f = open(destination, "w")
            with redirect_stdout(f):
                print(message)
""", """            with open(destination, "a" if options.get('append') else "w") as f:
                print(message, file=f)
""")),
    same("g-same-join-titles", PY,
         (SI, """            object = ""
            for t in self._title:
                object = "{}\\n{}".format(object, t)
""", """            object = "".join("\\n" + t for t in self._title)
""")),
    same("g-same-fstring", PY, (SI, 'message = "{}".format(object)', 'message = f"{object}"')),
    same("g-same-compgroup-kw", PY,
         (SI, """        cost_adj_factor = 1.0
        delay_adj_factor = 1.0
        if len(floats) > 0:
            cost_adj_factor = float(floats[0].getText())
        if len(floats) > 1:
            delay_adj_factor = float(floats[1].getText())
""", """        factors = [float(f.getText()) for f in floats] + [1.0, 1.0]
        cost_adj_factor, delay_adj_factor = factors[:2]
""")),
    same("g-same-try-var", PY, (SI, "        value = self._variables.get(variable)\n", "        try:\n            value = self._variables[variable]\n        except KeyError:\n            value = None\n")),
    same("g-same-stack-local", PY, (SI, """        value2 = self._stack.pop()
        value1 = self._stack.pop()
        self._stack.append([value1, value2])""", """        self._stack[-2:] = [[self._stack[-2], self._stack[-1]]]""")),
    same("g-same-stack-slice", PY, (SI, """        value2 = self._stack.pop()
        value1 = self._stack.pop()
        self._stack.append([value1, value2])""", """        pair = self._stack[-2:]
        del self._stack[-2:]
        self._stack.append(pair)""")),
    same("g-same-structure-loop", PY, (SI, """        groups = []
        for g in ctx.id_list().ID():
            groups.append(g.getText())
            s.AddCompGroup(pyslat.compgroup.lookup(g.getText()))
""", """        groups = [g.getText() for g in ctx.id_list().ID()]
        for name in groups:
            s.AddCompGroup(pyslat.compgroup.lookup(name))
""")),
]
CASES = [c for c in CASES if c]
