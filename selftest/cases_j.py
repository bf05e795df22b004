"""C20: the Python classes."""
SI, PS = "src/SlatInterpreter.py", "src/pyslat.py"


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


def bug(id, *e): return case(id, "C20", "alarm", *e)
def same(id, *e): return case(id, ["C17", "C18", "C19", "C20"], "quiet", *e)


EDPMEAN = """        if type(x) == list:
            result = list(self._func.bulk_Mean(x))
        else:
            result = self._func.Mean(x)
        return result
"""
FR = """    i = start
    while i <= stop + step/2:
        yield i
        i += step
"""
LR = """    return(list(map(math.exp, 
             math.log(start) + np.arange(0, count, 1)
             * math.log(end/start)/(count - 1))))
"""
SIMPLE = """        if im.function is None:
"""

CASES = [
    bug("j-edp-bulk-median", (PS, "result = list(self._func.bulk_Mean(x))", "result = list(self._func.bulk_Median(x))")),
    bug("j-sdln-sd", (PS, "        return self._func.SD_ln(x)\n", "        return self._func.SD(x)\n")),
    bug("j-im-lambda-list-sorted", (PS, "result = list(self._func.get_lambda(x))", "result = sorted(self._func.get_lambda(x))", 0)),
    bug("j-pcollapse-demo", (PS, "result = list(self._func.pCollapse(x))", "result = list(self._func.pDemolition(x))")),
    bug("j-args-swapped", (PS, "return self._func.X_at_exceedence(im, p)", "return self._func.X_at_exceedence(p, im)")),
    bug("j-ecost-swap", (PS, "return self._structure.E_cost(t, l)", "return self._structure.E_cost(l, t)")),
    bug("j-total-not-collapse", (PS, "return lognormaldist(self._structure.TotalCost(im))", "return lognormaldist(self._structure.Cost(im, True))")),
    bug("j-fates-order", (PS, """        return [lognormaldist(result[0]),
                lognormaldist(result[1]),""", """        return [lognormaldist(result[1]),
                lognormaldist(result[0]),""")),
    bug("j-const", (PS, "SD_LN_X = pyslatcore.SD_LN_X", "SD_LN_X = pyslatcore.SD_X")),
    bug("j-mu-const", (PS, "MEDIAN_X = pyslatcore.MEDIAN_X", "MEDIAN_X = pyslatcore.MEAN_LN_X")),
    bug("j-search-limit", (PS, "    pyslatcore.Set_Integration_Search_Limit(int(limit))", "    pyslatcore.Set_Integration_Eval_Limit(int(limit))")),
    bug("j-compound-order", (PS, "pyslatcore.MakeCompoundEDP(base_rate, x_rate, y_rate, name)", "pyslatcore.MakeCompoundEDP(base_rate, y_rate, x_rate, name)")),
    bug("j-compound-fn-twice", (PS, "MakeEDP(im.function(), fn2.function(), \"{}\".format(id)),", "MakeEDP(im.function(), fn.function(), \"{}\".format(id)),")),
    bug("j-addgroup-unchecked", (PS, "if self._im != None and self._im.id() != group.get_IM().id():", "if self._im != None and self._im.id() == None:")),
    bug("j-addgroup-first-only", (PS, """        if self._im == None:
            self._im = group.get_IM()
""", """            self._im = group.get_IM()
""")) if False else
    bug("j-addgroup-late", (PS, """        if self._im != None and self._im.id() != group.get_IM().id():
            raise ValueError("Component group tied to wrong IM " +
                             "(expected {}; got {})".format(self._im.id(),
                                                            group.get_IM().id()))
        self._structure.AddCompGroup(group.function())
""", """        self._structure.AddCompGroup(group.function())
        if self._im != None and self._im.id() != group.get_IM().id():
            raise ValueError("Component group tied to wrong IM " +
                             "(expected {}; got {})".format(self._im.id(),
                                                            group.get_IM().id()))
""")),
    bug("j-setcollapse-once", (PS, """        self._collapse = collapse
        self._func.SetCollapse(collapse)""", """        if self._collapse is None:
            self._func.SetCollapse(collapse)
        self._collapse = collapse""")),
    bug("j-memo", (PS, """        return self._func.ValueAt(x)""", """        if not hasattr(self, '_memo'):
            self._memo = {}
        if x not in self._memo:
            self._memo[x] = self._func.ValueAt(x)
        return self._memo[x]""")),
    bug("j-annual-kept", (PS, "        return lognormaldist(self._structure.AnnualCost())", """        if getattr(self, '_annual', None) is None:
            self._annual = lognormaldist(self._structure.AnnualCost())
        return self._annual""")),
    bug("j-detfn-loglog-lin", (PS, "            fntype = FUNCTION_TYPE.LOGLOG\n", "            fntype = FUNCTION_TYPE.LIN\n")),
    bug("j-loglog-swapped", (PS, "factory3(fntype, parameters[0], parameters[1])", "factory3(fntype, parameters[1], parameters[0])")),
    bug("j-probfn-types", (PS, """                                                  mu_func[0],
                                                  sigma_func[1].function(),
                                                  sigma_func[0]) """, """                                                  LOGNORMAL_MU_TYPE.MEAN_LN_X,
                                                  sigma_func[1].function(),
                                                  sigma_func[0]) """)),
    bug("j-frag-mu", (PS, "params.append(MakeLogNormalDist(s[0], options['mu'], s[1], options['sd']))", "params.append(MakeLogNormalDist(s[0], LOGNORMAL_MU_TYPE.MEDIAN_X, s[1], options['sd']))")),
    bug("j-delay-default-short", (PS, "MakeSimpleLossFn([DefaultLogNormalDist() for i in range(frag_fn.n_states())])", "MakeSimpleLossFn([DefaultLogNormalDist() for i in range(frag_fn.n_states() - 1)])")),
    bug("j-cg-count", (PS, "    return pyslatcore.MakeCompGroup(edp, frag_fn, cost_fn, delay_fn, count, \n                                    cost_adjustment_factor,\n                                    delay_adjustment_factor,", "    return pyslatcore.MakeCompGroup(edp, frag_fn, cost_fn, delay_fn, count, \n                                    delay_adjustment_factor,\n                                    cost_adjustment_factor,")),
    bug("j-frange-closed", (PS, "while i <= stop + step/2:", "while i <= stop:")),
    bug("j-frange-skips", (PS, FR, "    i = start + step\n    while i <= stop + step/2:\n        yield i\n        i += step\n")),
    bug("j-frange-over", (PS, "while i <= stop + step/2:", "while i <= stop + step:")),
    bug("j-linrange-count", (PS, "frange(start, end, (end - start)/(count - 1))", "frange(start, end, (end - start)/count)")),
    bug("j-logrange-count", (PS, LR, LR.replace("(count - 1)", "count"))),
    bug("j-logrange-ratio", (PS, LR, LR.replace("end/start", "start/end"))),
    bug("j-logrange-one", (PS, LR, LR.replace("np.arange(0, count, 1)", "np.arange(0, count - 1, 1)"))),
    # refactorings
    same("j-q-early", (PS, EDPMEAN, """        if isinstance(x, list):
            return list(self._func.bulk_Mean(x))
        return self._func.Mean(x)
""")),
    same("j-q-helper", (PS, EDPMEAN, "        return _either(x, self._func.bulk_Mean, self._func.Mean)\n"),
         (PS, "_DEFAULT_INPUT_EXTENSION = \".csv\"\n", """def _either(x, many, one):
    return list(many(x)) if type(x) is list else one(x)

_DEFAULT_INPUT_EXTENSION = ".csv"
""")),
    same("j-q-getattr", (PS, EDPMEAN, """        f = self._func
        return list(f.bulk_Mean(x)) if type(x) == list else f.Mean(x)
""")),
    same("j-q-comp", (PS, EDPMEAN, """        if type(x) == list:
            result = [self._func.Mean(v) for v in x]
        else:
            result = self._func.Mean(x)
        return result
""")),
    same("j-q-frange-range", (PS, FR, """    value = start
    limit = stop + 0.5 * step
    while value < limit:
        yield value
        value = value + step
""")),
    same("j-q-frange-true", (PS, FR, """    n = 0
    i = start
    while not (i > stop + step/2):
        yield i
        i += step
""")),
    same("j-q-linrange", (PS, "    return(list(frange(start, end, (end - start)/(count - 1))))", "    step = (end - start)/(count - 1)\n    return [x for x in frange(start, end, step)]")),
    same("j-q-logrange", (PS, LR, """    step = math.log(end/start)/(count - 1)
    return [math.exp(math.log(start) + i*step) for i in range(count)]
""")),
    same("j-q-logrange2", (PS, LR, """    return list(np.exp(math.log(start) + np.arange(count) * (math.log(end) - math.log(start))/(count - 1)))
""")),
    same("j-q-logrange3", (PS, LR, """    return [start * math.pow(end/start, i/(count - 1)) for i in range(count)]
""")),
    same("j-q-logrange4", (PS, LR, """    return [start * (end/start)**(i/(count - 1)) for i in range(count)]
""")),
    same("j-q-fates", (PS, """        result = self._structure.CostsByFate(im)
        return [lognormaldist(result[0]),
                lognormaldist(result[1]),
                lognormaldist(result[2])]
""", """        dists = self._structure.CostsByFate(im)
        return [lognormaldist(dists[i]) for i in range(3)]
""")),
    same("j-q-fates2", (PS, """        result = self._structure.CostsByFate(im)
        return [lognormaldist(result[0]),
                lognormaldist(result[1]),
                lognormaldist(result[2])]
""", """        return [lognormaldist(d) for d in self._structure.CostsByFate(im)]
""")),
    same("j-q-detfn", (PS, """        if type == 'power law':
            fntype = FUNCTION_TYPE.PLC
        elif type == 'hyperbolic':
            fntype = FUNCTION_TYPE.NLH
        elif type == 'loglog':
            fntype = FUNCTION_TYPE.LOGLOG
        elif type == 'linear':
            fntype = FUNCTION_TYPE.LIN
        else:
            raise ValueError("Invalid detfn type: {}".format(type))
""", """        types = {'power law': FUNCTION_TYPE.PLC,
                 'hyperbolic': FUNCTION_TYPE.NLH,
                 'loglog': FUNCTION_TYPE.LOGLOG,
                 'linear': FUNCTION_TYPE.LIN}
        if type not in types:
            raise ValueError("Invalid detfn type: {}".format(type))
        fntype = types[type]
""")),
    same("j-q-addgroup", (PS, """        if self._im != None and self._im.id() != group.get_IM().id():
            raise""", """        mine = self._im
        theirs = group.get_IM()
        if mine is not None and mine.id() != theirs.id():
            raise""")),
    same("j-q-fragcomp", (PS, """        params = []
        for s in scalars:
            params.append(MakeLogNormalDist(s[0], options['mu'], s[1], options['sd']))
        self._func = MakeFragilityFn(params)
""", """        mu, sd = options['mu'], options['sd']
        self._func = MakeFragilityFn([MakeLogNormalDist(m, mu, s, sd) for m, s in scalars])
""")),
    same("j-q-losscond", (PS, """        params = []
        for d in data:
            if d[0]:
                params.append(MakeLogNormalDist(d[0], options['mu'], d[1], options['sd']))
            else:
                params.append(DefaultLogNormalDist())
        self._func = MakeSimpleLossFn(params)
""", """        self._func = MakeSimpleLossFn([MakeLogNormalDist(d[0], options['mu'], d[1], options['sd'])
                                       if d[0] else DefaultLogNormalDist() for d in data])
""")),
    same("j-q-lognormal-prop", (PS, "        return self._dist.get_sigma_lnX();", "        d = self._dist\n        value = d.get_sigma_lnX()\n        return value")),
    same("j-q-eval-limit", (PS, "    return pyslatcore.Set_Integration_Eval_Limit(int(limit))", "    limit = int(limit)\n    return pyslatcore.Set_Integration_Eval_Limit(limit)")),
    same("j-q-search-return", (PS, "    pyslatcore.Set_Integration_Search_Limit(int(limit))", "    return pyslatcore.Set_Integration_Search_Limit(int(limit))")),
]
