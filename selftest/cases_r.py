"""Fresh bugs in the Python part, written from C17-C20 alone."""
SI, PS = "src/SlatInterpreter.py", "src/pyslat.py"
NL = "\n"


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


def bug(id, prop, *e): return case(id, prop, "alarm", *e)
def same(id, *e): return case(id, ["C17", "C18", "C19", "C20"], "quiet", *e)


CASES = [
    # C17
    bug("r-collapse-falls-back", "C17", (SI, "        pyslat.im.lookup(id).SetCollapse(dist)", "        im = pyslat.im.lookup(id)\n        if im._demolition:\n            im.SetDemolition(dist)\n        else:\n            im.SetCollapse(dist)")),
    bug("r-demolition-once", "C17", (SI, "        pyslat.im.lookup(id).SetDemolition(dist)", "        if pyslat.im.lookup(id)._demolition == None:\n            pyslat.im.lookup(id).SetDemolition(dist)")),
    bug("r-detfn-loglog-when-two", "C17", (SI, "        pyslat.detfn(id, type, value)", "        if type == 'loglog' and len(value[0]) == 2:\n            type = 'linear'\n        pyslat.detfn(id, type, value)")),
    bug("r-edp-same-im", "C17", (SI, "pyslat.edp(edp_id, pyslat.im.lookup(im_id),", "pyslat.edp(edp_id, pyslat.im.lookup(im_id) or list(pyslat.im.defs.values())[0],")),
    bug("r-cost-adj-zero", "C17", (SI, "            cost_adj_factor = float(floats[0].getText())", "            cost_adj_factor = float(floats[0].getText()) or 1.0")),
    bug("r-count-abs", "C17", (SI, "count = int(ctx.INTEGER().getText())\n        floats", "count = max(int(ctx.INTEGER().getText()), 1)\n        floats")),
    bug("r-strip-key", "C17", (SI, "return s.strip('\\'\"')", "return s.strip('\\'\" ')")),
    bug("r-structure-sorted-unique", "C17", (SI, "        for g in ctx.id_list().ID():", "        for g in ctx.id_list().ID()[:-1] or ctx.id_list().ID():")),
    bug("r-set-first-only", "C17", (SI, "        self._variables[id] = value", "        self._variables.setdefault(id, value)")),
    bug("r-set-none-int", "C17", (SI, "        self._variables[id] = value", "        self._variables[id] = int(value) if value == int(value) else value")),
    bug("r-scalar3-front", "C17", (SI, "        scalar2.append(value3)", "        scalar2.insert(0, value3)")),
    bug("r-float-array-set", "C17", (SI, "            vals.append(float(f.getText()))", "            if not float(f.getText()) in vals:\n                vals.append(float(f.getText()))")),
    bug("r-int-at-round", "C17", (SI, "        count = int(ctx.INTEGER().getText())\n\n", "        count = max(2, int(ctx.INTEGER().getText()) - 1)\n\n")),
    bug("r-at-incr-end", "C17", (SI, "pyslat.frange(start, end, incr)", "pyslat.frange(start, end - incr, incr)")),
    bug("r-lowrev-scattered", "C17", (SI, "search_method = pyslat.INTEGRATION_METHOD.SCATTERED", "search_method = pyslat.INTEGRATION_METHOD.DIRECTED")),
    bug("r-method-not-set", "C17", (SI, "            pyslat.Set_Integration_Method(search_method)\n", "            if not ctx.integration_search_option().DIRECTED():\n                pyslat.Set_Integration_Method(search_method)\n")),
    bug("r-npv-incr", "C17", (SI, "list(range(first_year, last_year, increment))", "list(range(first_year, last_year, 1 if increment > last_year else increment))[1:] + [last_year]")),
    bug("r-npv-rate-percent", "C17", (SI, "options['discount-rate'] = float(ctx.FLOAT_VAL().getText())", "options['discount-rate'] = float(ctx.FLOAT_VAL().getText()) / 100")),
    bug("r-annual-sd-skipped", "C17", (SI, "                            c = \"sd_x\"", "                            c = \"sd_ln_x\"")),
    bug("r-annual-order", "C17", (SI, "                cols.sort()", "                cols.reverse()")),
    bug("r-normalise-always", "C17", (SI, "            if ctx.NORMALISE_FLAG():\n                options['normalise'] = True", "            options['normalise'] = ctx.NORMALISE_FLAG() != True")),
    bug("r-frag-after-edp", "C17", (SI, "                    options['structcost-type'] = 'by-fate'", "                    options['structcost-type'] = 'by-edp'")),
    bug("r-analyze-first", "C17", (SI, "            rec.run()", "            rec.run()\n            break")),
    bug("r-analyze-reversed", "C17", (SI, "for rec in pyslat.recorder.all():", "for rec in reversed(list(pyslat.recorder.all())):")),
    bug("r-analyze-once", "C17", (SI, "            rec.run()", "            rec.run()\n        pyslat.recorder.defs.clear()")),
    bug("r-import-im-prob", "C17", (SI, "        pyslat.ImportIMFn(id, filename)", "        pyslat.ImportProbFn(id, filename)")),
    bug("r-stats-reset-first", "C17", (SI, "        if ctx.PRINT():\n            print(pyslat.Format_Statistics())", "        if ctx.PRINT():\n            print(pyslat.Format_Statistics())\n            pyslat.Reset_Statistics()")),
    bug("r-log-flag-keep", "C17", (SI, "        if (ctx.NOSTDERR_FLAG()):", "        if (ctx.NOSTDERR_FLAG() and not ctx.file_spec()):")),
    bug("r-print-lossfn-frag", "C17", (SI, "                object = pyslat.lossfn.lookup(id)", "                object = pyslat.fragfn.lookup(id)")),
    bug("r-print-title-last", "C17", (SI, "object = \"{}\\n{}\".format(object, t)", "object = \"{}\".format(t)")),
    bug("r-im-collapse-kept", "C17", (SI, "        pyslat.im(im_id, pyslat.detfn.lookup(fn_id))", "        old = pyslat.im.lookup(im_id)\n        new = pyslat.im(im_id, pyslat.detfn.lookup(fn_id))\n        if old and old._collapse:\n            new.SetCollapse(old._collapse)")),
    bug("r-rebuild-both", "C17", (SI, "        pyslat.structure.lookup(id).setRebuildCost(pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd']))", "        cost = pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd'])\n        pyslat.structure.lookup(id).setRebuildCost(cost)\n        pyslat.structure.lookup(id).setDemolitionCost(cost)")),
    # C18
    bug("r-frange-half", "C18", (PS, "    while i <= stop + step/2:", "    while i <= stop + step:")),
    bug("r-frange-drop", "C18", (PS, "    while i <= stop + step/2:", "    while i <= stop - step/2:")),
    bug("r-logrange-count", "C18", (PS, "math.log(end/start)/(count - 1)", "math.log(end/start)/count")),
    bug("r-logrange-10", "C18", (PS, "list(map(math.exp, ", "list(map(math.expm1, ")),
    bug("r-linrange-step", "C18", (PS, "(end - start)/(count - 1)", "(end - start)/count")),
    bug("r-at-dropped-last", "C18", (PS, "            self._at = list(at)", "            self._at = list(at)[:1000]")),
    bug("r-at-unique", "C18", (PS, "            self._at = list(at)", "            self._at = list(set(at))")),
    bug("r-dsedp-sum", "C18", (PS, "line = \"{}{:>15.6}\".format(line, sum(yvals))", "line = \"{}{:>15.6}\".format(line, sum(yvals[1:]))", 0)),
    bug("r-dsim-first", "C18", (PS, "                        yvals = self._function.pDS_IM(x)", "                        yvals = self._function.pDS_IM(self._at[0])")),
    bug("r-costrate-type", "C18", (PS, "loss_rate = self._function.lambda_cost(x)", "loss_rate = self._function.E_cost(x, 0.05)")),
    bug("r-deagg-sd", "C18", (PS, "c.get_mean_X(), c.get_sigma_lnX())", "c.get_mean_X(), c.get_sigma_X())")),
    bug("r-delayedp-im", "C18", (PS, "                                    yval = self._function.E_Delay_EDP(x)", "                                    yval = self._function.E_Delay_IM(x)")),
    bug("r-total-median", "C18", (PS, "yval = self._function.TotalCost(x).median()", "yval = self._function.TotalCost(x).mean()")),
    bug("r-append-w", "C18", (PS, "            if self._options.get('append'):", "            if self._options.get('append') and not os.path.exists(destination):")),
    bug("r-output-path", "C18", (PS, "        destination = full_output_path(self._options.get('filename'))", "        destination = self._options.get('filename')")),
    bug("r-byedp-first-twice", "C18", (PS, "                    for cg in groups[c]:", "                    for cg in groups[c][:1] * len(groups[c]):", 0)),
    bug("r-byedp-sd-type", "C18", (PS, "sd_ln, LOGNORMAL_SIGMA_TYPE.SD_LN_X))", "sd_ln, LOGNORMAL_SIGMA_TYPE.SD_X))", 0)),
    bug("r-byfrag-edp", "C18", (PS, "groups[compgroup.lookup(c[0]).fragfn().id()] = c", "groups[edp.lookup(c[0].get_EDP()).id()] = c")),
    bug("r-byfrag-merge", "C18", (PS, "groups[compgroup.lookup(c[0]).fragfn().id()] = c", "groups[compgroup.lookup(c[-1]).fragfn().id()] = c[:-1] or c")),
    bug("r-fate-nofate", "C18", (PS, "dist = self._function.CostsByFate(x)[1]", "dist = self._function.CostsByFate(self._at[-1])[1]")),
    bug("r-npv-year0", "C18", (PS, "                e = self._function.E_cost(year, discount_rate)", "                e = self._function.E_cost(year - self._at[0], discount_rate)")),
    bug("r-pdf-max-last", "C18", (PS, "            if (pdf > max_pdf):\n                max_pdf = pdf", "            max_pdf = pdf")),
    bug("r-pdf-area", "C18", (PS, "            divisor = max_pdf", "            divisor = sum(results)")),
    bug("r-annual-sd", "C18", (PS, "value = annual_loss.sd_ln()", "value = annual_loss.sd()")),
    bug("r-dsrate-cum", "C18", (PS, "                 line2 = \"{}{:>20.6}\".format(line2, rates[i])", "                 line2 = \"{}{:>20.6}\".format(line2, sum(rates[i:]))")),
    bug("r-edpim-exceed-1-p", "C18", (PS, "yvals.append([self._function.X_at_exceedence(x, y) for x in self._at])", "yvals.append([self._function.X_at_exceedence(x, 1 - y) for x in self._at])")),
    bug("r-columns-sorted", "C18", (PS, "        self._columns = columns\n        if id", "        self._columns = columns and [c for c in columns if not isinstance(c, numbers.Number)] + [c for c in columns if isinstance(c, numbers.Number)]\n        if id")),
    bug("r-columns-default-always", "C18", (PS, "             and columns == None:\n            columns = ['mean_x', 'sd_ln_x']", "             and (columns == None or len(columns) == 1):\n            columns = ['mean_x', 'sd_ln_x']")),
    bug("r-run-skips-second", "C18", (PS, "            self.generate_output()\n\n", "            if self._at:\n                self.generate_output()\n\n")),
    # C19
    bug("r-detfn-first", "C19", (PS, "            detfn.defs[id] = self", "            detfn.defs.setdefault(id, self)")),
    bug("r-frag-replace-if-same", "C19", (PS, "            if old:\n                fragfn.defs[id]._func.replace(self._func)", "            if old and type(old) == fragfn:\n                fragfn.defs[id]._func.replace(self._func)")),
    bug("r-loss-replace-swapped", "C19", (PS, "lossfn.defs[id]._func.replace(self._func)", "self._func.replace(lossfn.defs[id]._func)")),
    bug("r-cg-replace-late", "C19", (PS, "            if old:\n                compgroup.defs[id]._func.replace(self._func)\n            compgroup.defs[id] = self", "            compgroup.defs[id] = self\n            if old:\n                compgroup.defs[id]._func.replace(self._func)")),
    bug("r-edp-replace-same-im", "C19", (PS, "            if old:\n                edp.defs[id]._func.replace", "            if old and old._im is im:\n                edp.defs[id]._func.replace")),
    bug("r-structure-lower", "C19", (PS, "            structure.defs[id] = self", "            structure.defs[id.strip()] = self")),
    bug("r-recorder-first", "C19", (PS, "            recorder.defs[id] = self", "            if not id in recorder.defs:\n                recorder.defs[id] = self")),
    bug("r-frag-lookup-default", "C19", (PS, "            return fragfn.defs.get(id)", "            return fragfn.defs.get(id) or next(iter(fragfn.defs.values()), None)")),
    bug("r-cg-lookup-same", "C19", (PS, "            for c in compgroup.defs.values():\n                if (c.function().AreSame(id)):", "            for c in compgroup.defs.values():\n                if (c.function().get_EDP().AreSame(id.get_EDP())):")),
    bug("r-edp-lookup-not", "C19", (PS, "                if (e.function().AreSame(id)):", "                if not (e.function().AreSame(id)):")),
    # C20
    bug("r-dem-rebuild", "C20", (PS, "lognormaldist(self._structure.getDemolitionCost())", "lognormaldist(self._structure.getRebuildCost())")),
    bug("r-cost-collapse", "C20", (PS, "lognormaldist(self._structure.Cost(im, consider_collapse))", "lognormaldist(self._structure.Cost(im, consider_collapse or self._im._collapse != None))")),
    bug("r-fates-order", "C20", (PS, "                lognormaldist(result[1]),\n                lognormaldist(result[2])]", "                lognormaldist(result[2]),\n                lognormaldist(result[1])]")),
    bug("r-ecost-swap", "C20", (PS, "        return self._structure.E_cost(t, l)", "        return self._structure.E_cost(l, t)")),
    bug("r-ecost-int", "C20", (PS, "        return self._func.E_cost(t, l)", "        return self._func.E_cost(int(t), l)")),
    bug("r-addgroup-check", "C20", (PS, "if self._im != None and self._im.id() != group.get_IM().id():", "if self._im != None and self._im.id() != group.get_IM().id() and group.get_IM().id() != None:")),
    bug("r-addgroup-im-latest", "C20", (PS, "        if self._im == None:\n            self._im = group.get_IM()", "        self._im = None or self._im\n        if self._im == None and group._cost:\n            self._im = group.get_IM()")),
    bug("r-sd-delay", "C20", (PS, "        return self._func.SD_ln_Delay_EDP(edp)", "        return self._func.SD_ln_cost_EDP(edp)")),
    bug("r-prepair-coll", "C20", (PS, "        if type(x) == list:\n            result = list(self._func.pRepair(x))", "        if type(x) == list:\n            result = [1 - c for c in self._func.pCollapse(x)]")),
    bug("r-lambda-scalar", "C20", (PS, "            result = self._func.get_lambda(x)\n        return result\n\n    ## Return the probality of repair", "            result = self._func.get_lambda(abs(x))\n        return result\n\n    ## Return the probality of repair")),
    bug("r-cg-count", "C20", (PS, "                                   count, \n                                   cost_adj,\n                                   delay_adj,\n                                   str(id))", "                                   max(count, 1), \n                                   cost_adj,\n                                   delay_adj,\n                                   str(id))")),
    bug("r-cg-delay-none", "C20", (PS, "                                   delay and delay.function(),", "                                   (delay or cost) and (delay or cost).function(),")),
    bug("r-frag-params-sorted", "C20", (PS, "        for s in scalars:\n", "        for s in sorted(scalars):\n")),
    bug("r-loss-zero-sd", "C20", (PS, "            if d[0]:\n", "            if d[0] and d[1]:\n")),
    bug("r-loss-zero-none", "C20", (PS, "            if d[0]:\n", "            if d[0] > 0:\n")),
    bug("r-bilevel-swap", "C20", (PS, "                                              d[2],\n                                              d[3],", "                                              min(d[2], d[3]),\n                                              max(d[2], d[3]),")),
    bug("r-detfn-linear-loglog", "C20", (PS, "self._func = factory3(fntype, parameters[0], parameters[1])", "self._func = factory3(fntype, sorted(parameters[0]), parameters[1])")),
    bug("r-import-ddof", "C20", (PS, "np.std(ln_values, ddof=1)", "np.std(ln_values, ddof=0)")),
    bug("r-import-mean", "C20", (PS, "mu.append(math.exp(np.mean(ln_values)))", "mu.append(np.mean(np.exp(ln_values)))")),
    bug("r-import-im-swap", "C20", (PS, "        x.append(d[0])\n        y.append(d[1])", "        x.append(d[1])\n        y.append(d[0])")),
    bug("r-import-im-linear", "C20", (PS, "im_func = detfn(None, 'loglog'", "im_func = detfn(None, 'linear'")),
    bug("r-import-collapsed-one", "C20", (PS, "            if y==0:\n", "            if y<=0.001:\n")),
    bug("r-mu-enum", "C20", (PS, "    MEDIAN_X = pyslatcore.MEDIAN_X", "    MEDIAN_X = pyslatcore.MEAN_X")),
    bug("r-dist-median", "C20", (PS, "        return self._dist.get_median_X()", "        return math.exp(self._dist.get_mu_lnX() + self._dist.get_sigma_lnX()**2/2)")),
    bug("r-default-delay-count", "C20", (PS, "for i in range(frag_fn.n_states())]", "for i in range(1)]")),
    bug("r-settings-int", "C20", (PS, "    return pyslatcore.Set_Integration_Eval_Limit(int(limit))", "    return pyslatcore.Set_Integration_Search_Limit(int(limit))")),
    bug("r-compound-same", "C20", (PS, "MakeEDP(im.function(), fn2.function(), \"{}\".format(id)),", "MakeEDP(im.function(), fn.function(), \"{}\".format(id)),")),
    bug("r-clear-cond", "C20", (PS, "        return self._structure.Clear_Cache()", "        if self._im:\n            return self._structure.Clear_Cache()")),
    bug("r-setcollapse-once", "C20", (PS, "        self._func.SetCollapse(collapse)", "        if collapse:\n            self._func.SetCollapse(collapse)")),
    bug("r-remove-im", "C20", (PS, "        self._structure.RemoveCompGroup(group.function())", "        if group._im is self._im:\n            self._structure.RemoveCompGroup(group.function())")),
    # the same behaviour
    same("r-s-frange-for", (PS, "    i = start\n    while i <= stop + step/2:\n        yield i\n        i += step", "    limit = stop + step/2\n    value = start\n    while not value > limit:\n        yield value\n        value = value + step")),
    same("r-s-listvar", (PS, "        if type(x) == list:\n            result = list(self._func.pRepair(x))\n        else:\n            result = self._func.pRepair(x)\n        return result", "        answer = self._func.pRepair(x)\n        return list(answer) if type(x) == list else answer")),
    same("r-s-im-early", (PS, "        if id != None:\n            old = im.lookup(id)\n            if old:\n                im.defs[id]._func.replace(self._func)\n            im.defs[id] = self", "        if id is None:\n            return\n        previous = im.defs.get(id)\n        if previous is not None:\n            previous._func.replace(self._func)\n        im.defs[id] = self")),
    same("r-s-fates", (PS, "        result = self._structure.CostsByFate(im)\n        return [lognormaldist(result[0]),\n                lognormaldist(result[1]),\n                lognormaldist(result[2])]", "        return [lognormaldist(d) for d in self._structure.CostsByFate(im)[:3]]")),
    same("r-s-pairs", (SI, "        for pair in values:\n            x_values.append(pair[0])\n            y_values.append(pair[1])\n", "        for x, y in values:\n            x_values.append(x)\n            y_values.append(y)\n", 0)),
    same("r-s-dist-helper", (SI, "    def exitDemolitioncost_command(self", "    def _dist(self):\n        options = self._stack.pop()\n        params = self._stack.pop()\n        return pyslat.MakeLogNormalDist(params[0], options['mu'], params[1], options['sd'])\n\n    def exitDemolitioncost_command(self"),
         (SI, "        options = self._stack.pop()\n        params = self._stack.pop()\n        mu = params[0]\n        sd = params[1]\n\n        dist = pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd'])\n        pyslat.im.lookup(id).SetCollapse(dist)", "        pyslat.im.lookup(id).SetCollapse(self._dist())")),
    same("r-s-table", (SI, "            elif fntype.COMPGROUP():\n                object = pyslat.compgroup.lookup(id)\n            else:\n                object = 'unknown'", "            else:\n                object = pyslat.compgroup.lookup(id) if fntype.COMPGROUP() else 'unknown'")),
    same("r-s-pdf-max", (PS, "        results = []\n        max_pdf = 0\n        for im in self._at:\n            pdf = self._function.pdf(im)\n            results.append(pdf)\n            if (pdf > max_pdf):\n                max_pdf = pdf", "        results = [self._function.pdf(im) for im in self._at]\n        max_pdf = max([0] + results)")),
    same("r-s-fates-index", (PS, "                    if f == 'repair':\n                        dist = self._function.CostsByFate(x)[0]\n                    elif f == 'demo':\n                        dist = self._function.CostsByFate(x)[1]\n                    elif f == 'coll':\n                        dist = self._function.CostsByFate(x)[2]\n                    else:\n                        dist = None\n", "                    dist = self._function.CostsByFate(x)[fates.index(f)]\n")),
    same("r-s-with-open", (PS, "            if self._options.get('append'):\n                f = open(destination, \"a\")\n            else:\n                f = open(destination, \"w\")\n            with redirect_stdout(f):\n                self.generate_output()\n", "            mode = \"a\" if self._options.get('append') else \"w\"\n            with open(destination, mode) as f, redirect_stdout(f):\n                self.generate_output()\n")),
]
