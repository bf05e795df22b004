"""C18: recorders."""
SI, PS, G4 = "src/SlatInterpreter.py", "src/pyslat.py", "src/slatParser.g4"
PY = ["C17", "C18"]


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


def bug(id, prop, *e): return case(id, prop, "alarm", *e)
def same(id, props, *e): return case(id, props, "quiet", *e)
def back(id, prop, h): return {"id": id, "prop": prop, "want": "alarm", "edits": [], "revert": h}


CASES = [
    back("h-rev-lossds", "C18", "2a57133"),
    back("h-rev-annual", "C18", "80ee24a"),
    back("h-rev-nofile", "C18", "fc83760"),
    back("h-rev-structcost", "C18", "2f48045"),
    back("h-rev-names", "C18", "a055b9b"),
    back("h-rev-edpim", "C18", "76908fb"),
    # bugs
    bug("h-append-w", "C18", (PS, "if self._options.get('append'):", "if self._options.get('append') == 'a':")),
    bug("h-append-in-ctor", "C18", (PS, 'f = open(destination, "w")', 'f = open(destination, "x")')),
    bug("h-linrange-skips", "C18", (SI, "self._stack.append(pyslat.linrange(", "self._stack.append(pyslat.logrange(")),
    bug("h-at-sorted", "C18", (PS, "            self._at = list(at)\n", "            self._at = sorted(at)\n")),
    bug("h-imrate-swapped", "C18", (PS, 'for x, y in zip(self._at, yvals):\n                    print("{:>15.6}{:>15.6}".format(x, y))', 'for y, x in zip(self._at, yvals):\n                    print("{:>15.6}{:>15.6}".format(x, y))')),
    bug("h-collapse-swapped", "C18", (PS, "for x, demo, coll in zip(self._at, yvals_demo, yvals_coll):", "for x, coll, demo in zip(self._at, yvals_demo, yvals_coll):")),
    bug("h-collapse-labels", "C18", (PS, "                yvals_coll = self._function.pCollapse(self._at)", "                yvals_coll = self._function.pRepair(self._at)")),
    bug("h-edpim-median", "C18", (PS, "yvals.append(self._function.Median(self._at))", "yvals.append(self._function.Mean(self._at))")),
    bug("h-dsim-edp", "C18", (PS, "yvals = self._function.pDS_IM(x)", "yvals = self._function.fragfn().pExceeded(x)")),
    bug("h-delayim-edp", "C18", (PS, "yval = self._function.E_Delay_IM(x)", "yval = self._function.E_Delay_EDP(x)")),
    bug("h-costim-sd", "C18", (PS, "yval = self._function.SD_ln_Cost_IM(x)", "yval = self._function.SD_ln_Cost_EDP(x)")),
    bug("h-totalcost-sd", "C18", (PS, "yval = self._function.TotalCost(x).sd_ln()", "yval = self._function.TotalCost(x).sd()")),
    bug("h-deagg-order", "C18", (PS, "nc = values[0]\n                        c = values[1]", "nc = values[1]\n                        c = values[0]")),
    bug("h-fate-order", "C18", (PS, "dist = self._function.CostsByFate(x)[1]", "dist = self._function.CostsByFate(x)[2]")),
    bug("h-byedp-first-only", "C18", (PS, "                groups[edp.lookup(c[0].get_EDP()).id()] = c\n", "                groups[edp.lookup(c[0].get_EDP()).id()] = c[:1]\n")),
    bug("h-byfrag-dists-kept", "C18", (PS, """            for x in self._at:
                line = "{:>15.6}".format(x)
                for c in categories:
                    dists = []
                    for cg in groups[c]:
                        mean = cg.E_Cost_IM(x)
                        sd_ln = cg.SD_ln_Cost_IM(x)

                        dists.append(pyslatcore.MakeLogNormalDist(mean, LOGNORMAL_MU_TYPE.MEAN_X,
                                                                  sd_ln, LOGNORMAL_SIGMA_TYPE.SD_LN_X))
                    dist = lognormaldist(pyslatcore.AddDistributions(dists))
                    
                    for y in self._columns:
                        if y == 'mean_x':
                            yval = dist.mean()
                        elif y== 'mean_ln_x':
                            yval = dist.mean_ln()
                        elif y== 'median_x':
                            yval = dist.median()
                        elif y == 'sd_ln_x':
                            yval = dist.sd_ln()
                        elif y == 'sd_x':
                            yval = dist.sd()
                        else:
                            yval = None
                        
                        line = "{}{:>20.6}".format(line, yval)""", """            for x in self._at:
                line = "{:>15.6}".format(x)
                dists = []
                for c in categories:
                    for cg in groups[c]:
                        mean = cg.E_Cost_IM(x)
                        sd_ln = cg.SD_ln_Cost_IM(x)

                        dists.append(pyslatcore.MakeLogNormalDist(mean, LOGNORMAL_MU_TYPE.MEAN_X,
                                                                  sd_ln, LOGNORMAL_SIGMA_TYPE.SD_LN_X))
                    dist = lognormaldist(pyslatcore.AddDistributions(dists))
                    
                    for y in self._columns:
                        if y == 'mean_x':
                            yval = dist.mean()
                        elif y== 'mean_ln_x':
                            yval = dist.mean_ln()
                        elif y== 'median_x':
                            yval = dist.median()
                        elif y == 'sd_ln_x':
                            yval = dist.sd_ln()
                        elif y == 'sd_x':
                            yval = dist.sd()
                        else:
                            yval = None
                        
                        line = "{}{:>20.6}".format(line, yval)""")),
    bug("h-npv-rate", "C18", (PS, "e = self._function.E_cost(year, discount_rate)", "e = self._function.E_cost(discount_rate, year)")),
    bug("h-collrate-swapped", "C18", (PS, "self._function.id(), self._function.DemolitionRate(),\n                                          self._function.CollapseRate()", "self._function.id(), self._function.CollapseRate(),\n                                          self._function.DemolitionRate()")),
    bug("h-pdf-normalised-always", "C18", (PS, "if self._options.get('normalise', None):", "if 'normalise' in self._options:")) if False else None,
    bug("h-pdf-first", "C18", (PS, "            if (pdf > max_pdf):\n                max_pdf = pdf", "            if (max_pdf == 0):\n                max_pdf = pdf")),
    bug("h-default-cols", "C18", (PS, "columns = ['mean_x', 'sd_ln_x']", "columns = ['mean_x', 'sd_x']")),
    bug("h-labels-shared", "C18", (PS, "        self._columns = columns\n        if id != None:", "        self._columns = columns and sorted(columns)\n        if id != None:")),
    bug("h-registered-by-type", "C18", (PS, "            recorder.defs[id] = self\n", "            recorder.defs[type] = self\n")),
    bug("h-all-once", "C18", (SI, "        for rec in pyslat.recorder.all():\n", "        for rec in list(pyslat.recorder.all())[1:]:\n")),
    bug("h-precision", "C18", (PS, 'line = "{}{:>15.6}".format(line, loss_rate)', 'line = "{}{:>15.2}".format(line, loss_rate)')),
    bug("h-exceed-args", "C18", (PS, "yval = self._function.function().X_at_exceedence(x, y)", "yval = self._function.function().X_at_exceedence(y, x)")),
    bug("h-frange-open", "C20", (PS, "    while i <= stop + step/2:", "    while i < stop:")),
    # the same
    same("h-same-columns-table", PY, (PS, """                    for y in self._columns:
                        if y == 'mean_x':
                            yval = dist.mean()
                        elif y== 'mean_ln_x':
                            yval = dist.mean_ln()
                        elif y== 'median_x':
                            yval = dist.median()
                        elif y == 'sd_ln_x':
                            yval = dist.sd_ln()
                        elif y == 'sd_x':
                            yval = dist.sd()
                        else:
                            yval = None
                        
                        line = "{}{:>15.6}".format(line, yval)
                print(line)
        elif self._options['structcost-type'] == 'npv':""", """                    ask = {'mean_x': dist.mean, 'mean_ln_x': dist.mean_ln, 'median_x': dist.median,
                           'sd_ln_x': dist.sd_ln, 'sd_x': dist.sd}
                    for y in self._columns:
                        line = "{}{:>15.6}".format(line, ask[y]())
                print(line)
        elif self._options['structcost-type'] == 'npv':""")),
    same("h-same-join", PY, (PS, """                    for x in zip(self._at, yvals_demo, yvals_coll):""", "")) if False else None,
    same("h-same-collapse-loop", PY, (PS, """                for x, demo, coll in zip(self._at, yvals_demo, yvals_coll):
                    print("{:>15.6}{:>15.6}{:>15.6}".format(x, demo, coll))""", """                for i in range(len(self._at)):
                    line = "{:>15.6}".format(self._at[i])
                    line += "{:>15.6}".format(yvals_demo[i])
                    line += "{:>15.6}".format(yvals_coll[i])
                    print(line)""")),
    same("h-same-imrate-each", PY, (PS, """                yvals = self._function.getlambda(self._at)
                for x, y in zip(self._at, yvals):
                    print("{:>15.6}{:>15.6}".format(x, y))""", """                for x in self._at:
                    print("{:>15.6}{:>15.6}".format(x, self._function.getlambda(x)))""")),
    same("h-same-run-with", PY, (PS, """            if self._options.get('append'):
                f = open(destination, "a")
            else:
                f = open(destination, "w")
            with redirect_stdout(f):
                self.generate_output()
""", """            mode = "a" if self._options.get('append') else "w"
            with open(destination, mode) as f:
                with redirect_stdout(f):
                    self.generate_output()
""")),
    same("h-same-run-inverted", PY, (PS, """        if destination != None:
            if self._options.get('append'):""", """        if destination is None:
            self.generate_output()
            return
        if True:
            if self._options.get('append'):"""), (PS, """                self.generate_output()

        else:
            self.generate_output()
""", """                self.generate_output()
""")),
    same("h-same-line-method", PY, (PS, """    ## Run the recorder.
    #  This invokes""", """    ## A line of numbers.
    def _line(self, values):
        return "".join(["{:>15.6}".format(v) for v in values])

    ## Run the recorder.
    #  This invokes"""), (PS, """                        nc = values[0]
                        c = values[1]
                        line = "{}{:>15.6}{:>15.6}{:>15.6}{:>15.6}".format(
                            line, 
                            nc.get_mean_X(), nc.get_sigma_lnX(), 
                            c.get_mean_X(), c.get_sigma_lnX())""", """                        line += self._line([f(v) for v in values[:2] for f in (lambda d: d.get_mean_X(), lambda d: d.get_sigma_lnX())])""")),
    same("h-same-fstring", PY, (PS, """                        line = "{}{:>15.6}".format(line, loss_rate)""", """                        line = f"{line}{loss_rate:>15.6}\"""")),
    same("h-same-fates", PY, (PS, """                    if f == 'repair':
                        dist = self._function.CostsByFate(x)[0]
                    elif f == 'demo':
                        dist = self._function.CostsByFate(x)[1]
                    elif f == 'coll':
                        dist = self._function.CostsByFate(x)[2]
                    else:
                        dist = None
""", """                    dist = self._function.CostsByFate(x)[fates.index(f)]
""")),
    same("h-same-pdf-max", PY, (PS, """        results = []
        max_pdf = 0
        for im in self._at:
            pdf = self._function.pdf(im)
            results.append(pdf)
            if (pdf > max_pdf):
                max_pdf = pdf
""", """        results = [self._function.pdf(im) for im in self._at]
        max_pdf = max([0] + results)
""")),
    same("h-same-pdf-zip", PY, (PS, """        for i in range(len(self._at)):
            print("{:>15.6}{:>15.6}".format(self._at[i], results[i]/divisor))""", """        for x, y in zip(self._at, results):
            print("{:>15.6}{:>15.6}".format(x, y / divisor))""")),
    same("h-same-stdout-write", PY, (PS, """            print(line1)
            print(line2)
        elif self._options['structcost-type'] == 'by-edp':""", """            print(line1 + "\\n" + line2)
        elif self._options['structcost-type'] == 'by-edp':""")),
    same("h-same-tabs", PY, (PS, """            line = "{:>15}".format(x_label)
            for y in y_label:
                    line = "{}{:>15}".format(line, y)
            print(line)
""", """            print("".join("{:>15}".format(y) for y in [x_label] + list(y_label)))
""")),
    same("h-same-groups", PY, (PS, """            groups = dict()
            for c in components:
                groups[edp.lookup(c[0].get_EDP()).id()] = c
""", """            groups = {edp.lookup(c[0].get_EDP()).id(): c for c in components}
""")),
    same("h-same-sorted", PY, (PS, """            categories = list(groups.keys())
            categories.sort()

            # Print column headers:""", """            categories = sorted(groups)

            # Print column headers:""")),
    same("h-same-sum", PY, (PS, """                        yvals = self._function.pDS_IM(x)
                        for y in yvals:
                            line = "{}{:>15.6}".format(line, y)
                        line = "{}{:>15.6}".format(line, sum(yvals))""", """                        total = 0
                        for y in self._function.pDS_IM(x):
                            line = "{}{:>15.6}".format(line, y)
                            total += y
                        line = "{}{:>15.6}".format(line, total)""")),
]
CASES = [c for c in CASES if c]
