"""C19: names and registries."""
SI, PS = "src/SlatInterpreter.py", "src/pyslat.py"


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


def bug(id, *e): return case(id, "C19", "alarm", *e)
def same(id, *e): return case(id, ["C17", "C18", "C19"], "quiet", *e)


IMREG = """        if id != None:
            old = im.lookup(id)
            if old:
                im.defs[id]._func.replace(self._func)
            im.defs[id] = self
"""
CGREG = """        if id != None:
            old = compgroup.lookup(id)
            if old:
                compgroup.defs[id]._func.replace(self._func)
            compgroup.defs[id] = self
"""
EDPREG = """        if id != None:
            old = edp.lookup(id)
            if old:
                edp.defs[id]._func.replace(self._func)
            edp.defs[id] = self
"""
FRREG = """            old = fragfn.lookup(id)
            if old:
                fragfn.defs[id]._func.replace(self._func)
            fragfn.defs[id] = self
"""

CASES = [
    {"id": "i-rev-probfn", "prop": "C19", "want": "alarm", "edits": [], "revert": "1c25d6d"},
    bug("i-im-no-replace", (PS, IMREG, "        if id != None:\n            im.defs[id] = self\n")),
    bug("i-im-wrong-way", (PS, "im.defs[id]._func.replace(self._func)", "self._func.replace(im.defs[id]._func)")),
    bug("i-cg-register-first", (PS, CGREG, """        if id != None:
            old = compgroup.lookup(id)
            compgroup.defs[id] = self
            if old:
                compgroup.defs[id]._func.replace(self._func)
""")),
    bug("i-edp-keeps-old", (PS, EDPREG, """        if id != None:
            old = edp.lookup(id)
            if old:
                edp.defs[id]._func.replace(self._func)
            edp.defs.setdefault(id, self)
""")),
    bug("i-lookup-get-name", (PS, "return im.defs.get(id)", "return im.defs.get('im')")),
    bug("i-lookup-sharedreg", (PS, "return probfn.defs.get(id)", "return detfn.defs.get(id)")),
    bug("i-anonymous-registered", (PS, """        if id != None:
            detfn.defs[id] = self""", """        detfn.defs[id] = self""")),
    bug("i-edp-early", (PS, """        self._id = id
        self._im = im
        self._fn = fn
        if fn2==None:""", """        self._id = id
        self._im = im
        self._fn = fn
        if id != None and edp.lookup(id) is None:
            edp.defs[id] = self
        if fn2==None:""")),
    bug("i-recorder-early", (PS, """        if not type == 'dsrate' and not type == 'collrate' \\
           and not type == 'structcost' \\
           and at==None:""", """        if id != None:
            recorder.defs[id] = self
        if not type == 'dsrate' and not type == 'collrate' \\
           and not type == 'structcost' \\
           and at==None:""")),
    bug("i-clear-forgets", (PS, "    lossfn.defs = dict()\n    compgroup", "    compgroup")),
    bug("i-frag-clears-others", (PS, FRREG, FRREG.replace("fragfn.defs[id] = self", "fragfn.defs = {id: self}"))),
    bug("i-frag-nosuper", (PS, "self._func = MakeFragilityFn(distribs)\n", "self._func = MakeFragilityFn(distribs[:1])\n")) if False else
    bug("i-id-lost", (PS, """    def _register(self, id):
        self._id = id
        if id != None:
            old = fragfn.lookup(id)""", """    def _register(self, id):
        self._id = None
        if id != None:
            old = fragfn.lookup(id)""")),
    bug("i-native-first", (PS, """            for e in edp.defs.values():
                if (e.function().AreSame(id)):
                    return e
            return None""", """            for e in edp.defs.values():
                return e
            return None""")),
    bug("i-native-notsame", (PS, """            for e in edp.defs.values():
                if (e.function().AreSame(id)):
                    return e
            return None""", """            for e in edp.defs.values():
                if not (e.function().AreSame(id)):
                    return e
            return None""")),
    bug("i-replace-if-anon", (PS, IMREG, """        old = im.lookup(id)
        if old:
            im.defs[id]._func.replace(self._func)
        if id != None or not im.defs:
            im.defs[id] = self
""")),
    # refactorings
    same("i-q-old", (PS, IMREG, """        if id is not None:
            previous = im.defs.get(id)
            if previous is not None:
                previous._func.replace(self._func)
            im.defs[id] = self
""")),
    same("i-q-in", (PS, CGREG, """        if id is not None:
            if id in compgroup.defs:
                compgroup.defs[id].function().replace(self.function())
            compgroup.defs[id] = self
""")),
    same("i-q-early-return", (PS, EDPREG, """        if id is None:
            return
        old = edp.lookup(id)
        edp.defs[id] = self
        if old:
            old._func.replace(self._func)
""")) if False else
    same("i-q-early-return", (PS, EDPREG, """        if id is None:
            return
        old = edp.lookup(id)
        if old:
            old._func.replace(self._func)
        edp.defs[id] = self
""")),
    same("i-q-helper", (PS, IMREG, "        _define(im, id, self)\n"), (PS, CGREG, "        _define(compgroup, id, self)\n"),
         (PS, "_DEFAULT_INPUT_EXTENSION = \".csv\"\n", """def _define(cls, id, obj):
    if id != None:
        old = cls.lookup(id)
        if old:
            old.function().replace(obj.function())
        cls.defs[id] = obj

_DEFAULT_INPUT_EXTENSION = ".csv"
""")),
    same("i-q-clear-loop", (PS, """    detfn.defs = dict()
    probfn.defs = dict()
    im.defs = dict()
    edp.defs = dict()
    fragfn.defs = dict()
    lossfn.defs = dict()
    compgroup.defs = dict()
    structure.defs = dict()
    recorder.defs = dict()
""", """    for c in (detfn, probfn, im, edp, fragfn, lossfn, compgroup, structure, recorder):
        c.defs = dict()
""")),
    same("i-q-clear-clear", (PS, "    im.defs = dict()\n    edp.defs = dict()\n", "    im.defs.clear()\n    edp.defs = {}\n")),
    same("i-q-trygetitem", (PS, "        return detfn.defs.get(id)\n", "        try:\n            return detfn.defs[id]\n        except KeyError:\n            return None\n")),
    same("i-q-inget", (PS, "        return lossfn.defs.get(id)\n", "        if id in lossfn.defs:\n            return lossfn.defs[id]\n        return None\n")),
    same("i-q-next", (PS, """            for e in edp.defs.values():
                if (e.function().AreSame(id)):
                    return e
            return None""", """            return next((e for e in edp.defs.values() if e.function().AreSame(id)), None)""")),
    same("i-q-items", (PS, """            for e in edp.defs.values():
                if (e.function().AreSame(id)):
                    return e
            return None""", """            for name, e in edp.defs.items():
                if e.function().AreSame(id):
                    return e""")),
    same("i-q-static", (PS, """    def lookup(id):
        return structure.defs.get(id)""", """    @staticmethod
    def lookup(id):
        return structure.defs.get(id, None)""")),
]
