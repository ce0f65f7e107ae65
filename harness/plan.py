"""Which models and which recorded suites decide which property."""
MODELS = {
    "patchgrid": dict(module="MCPatchGrid", cfg="MCPatchGrid_quick.cfg", cfg_thorough="MCPatchGrid.cfg", workers=8),
}
MODELS["rings"] = dict(module="MCRings", cfg="MCRings_quick.cfg", cfg_thorough="MCRings.cfg", workers=6)
MODELS["healpix"] = dict(module="MCHealpix", cfg="MCHealpix_quick.cfg", cfg_thorough="MCHealpix.cfg", workers=4)


MODELS["sky"] = dict(module="MCSkySystem", cfg="MCSkySystem_quick.cfg", cfg_thorough="MCSkySystem.cfg", workers=4)
MODELS["skysim"] = dict(module="MCSkySystem", cfg="MCSkySystem_sim.cfg", workers=1,
                        extra=("-simulate", "num=60", "-depth", "30", "-seed", "{seed}"),
                        extra_thorough=("-simulate", "num=1200", "-depth", "30", "-seed", "{seed}"))

MODELS["skyweave"] = dict(module="MCSkySystem", cfg="MCSkySystem_weave.cfg", workers=2)
MODELS["skylives"] = dict(module="MCSkySystem", cfg="MCSkySystem_lives.cfg", workers=1,
                          extra=("-simulate", "num=40", "-depth", "30", "-seed", "{seed}"),
                          extra_thorough=("-simulate", "num=500", "-depth", "30", "-seed", "{seed}"))
# the same without a bound on the length of histories
MODELS["skyany"] = dict(module="MCSkySystem", cfg="MCSkySystem_any.cfg", cfg_thorough="MCSkySystem_anydeep.cfg", workers=4)
MODELS["config"] = dict(module="MCConfig", cfg="MCConfig.cfg", workers=2)

MODELS["packer"] = dict(module="MCPacker", cfg="MCPacker_quick.cfg", cfg_thorough="MCPacker.cfg", workers=4)

MODELS["identity"] = dict(module="MCIdentity", cfg="MCIdentity_quick.cfg", cfg_thorough="MCIdentity.cfg", workers=4)

MODELS["register"] = dict(module="MCRegister", cfg="MCRegister_quick.cfg", workers=4)
MODELS["registerany"] = dict(module="MCRegister", cfg="MCRegister_any.cfg", workers=2)
MODELS["registerdeep"] = dict(module="MCRegister", cfg="MCRegister.cfg", workers=6)


def T(suite, **kw):
    return dict(suite=suite, module="TraceTract", **kw)


def M(suite, **kw):
    return dict(suite=suite, module="TraceMap", **kw)


def C(suite, **kw):
    return dict(suite=suite, module="TraceCfg", **kw)


def K(suite, **kw):
    return dict(suite=suite, module="TracePack", **kw)


PACK = [K("pack:grid", cases="packer"), K("pack:rand"), K("pack:dims")]


def G(suite, **kw):
    return dict(suite=suite, module="TraceReg", **kw)


def V(suite, **kw):
    return dict(suite=suite, module="TraceSame", **kw)


def H(suite, **kw):
    return dict(suite=suite, module="TraceHelp", **kw)


def Y(suite, **kw):
    return dict(suite=suite, module="TraceSys", **kw)


MODELS["hashlayout"] = dict(module="MCHashLayout", cfg="MCHashLayout.cfg", workers=2)


def S(suite, **kw):
    return dict(suite=suite, module="TraceHash", **kw)


MODELS["threads"] = dict(module="MCThreads", cfg="MCThreads_quick.cfg", cfg_thorough="MCThreads_quick.cfg", workers=2)
MODELS["threadsdeep"] = dict(module="MCThreads", cfg="MCThreads.cfg", workers=2)
MODELS["threadssim"] = dict(module="MCThreads", cfg="MCThreads_sim.cfg", workers=1,
                            extra=("-simulate", "num=30", "-depth", "60", "-seed", "{seed}"),
                            extra_thorough=("-simulate", "num=600", "-depth", "60", "-seed", "{seed}"))


def Z(suite, **kw):
    return dict(suite=suite, module="TraceThread", **kw)


MODELS["serial"] = dict(module="MCSerial", cfg="MCSerial.cfg", cfg_thorough="MCSerial_deep.cfg", workers=4)
MODELS["serialsim"] = dict(module="MCSerial", cfg="MCSerial_sim.cfg", workers=1,
                           extra=("-simulate", "num=300", "-depth", "60", "-seed", "{seed}"),
                           extra_thorough=("-simulate", "num=3000", "-depth", "60", "-seed", "{seed}"))
MODELS["serialsim3"] = dict(module="MCSerial", cfg="MCSerial_sim3.cfg", workers=1,
                            extra=("-simulate", "num=300", "-depth", "60", "-seed", "{seed}"),
                            extra_thorough=("-simulate", "num=3000", "-depth", "60", "-seed", "{seed}"))


def P(suite, **kw):
    return dict(suite=suite, module="TraceConc", **kw)


MODELS["lazy"] = dict(module="MCLazy", cfg="MCLazy.cfg", cfg_thorough="MCLazy_deep.cfg", workers=4)
MODELS["lazyany"] = dict(module="MCLazy", cfg="MCLazy_any.cfg", cfg_thorough="MCLazy_anydeep.cfg", workers=4)
MODELS["lazysim"] = dict(module="MCLazy", cfg="MCLazy_sim.cfg", workers=1,
                         extra=("-simulate", "num=60", "-depth", "30", "-seed", "{seed}"),
                         extra_thorough=("-simulate", "num=1200", "-depth", "30", "-seed", "{seed}"))
MODELS["numbering"] = dict(module="MCNumbering", cfg="MCNumbering.cfg", workers=1)
MODELS["primary"] = dict(module="MCPrimary", cfg="MCPrimary.cfg", workers=4)
# lemmas of Unbounded, shown by Apalache for integers of any size
for _n, _l in {"axtile": ["Tiles", "Inside", "Grown"], "axouter": ["Outer", "Shared"],
               "axcell": ["CellNext", "CellSame", "CellFirst", "CellSpan"], "axseq": ["Bijection", "Onto"],
               "axlocate": ["Tiles", "Inside"], "axsearch": ["SearchAll", "SearchOnly"], "axpack": ["PackBack"],
               "axring": ["RingNearest", "RingOnly"], "axnum": ["Bijection", "Onto", "RingNumbers"]}.items():
    MODELS[_n] = dict(module="Unbounded", cfg="", lemmas=_l)
GRID = [dict(suite="tract:grids", module="TraceTract", cases="patchgrid"), dict(suite="tract:maps", module="TraceTract")]
PLAN = {
    "C01": dict(models=["patchgrid", "axtile"], suites=GRID),
    "C02": dict(models=["patchgrid", "axouter"], suites=GRID),
    "C03": dict(models=["patchgrid", "axcell"], suites=GRID),
    "C04": dict(models=["patchgrid", "axseq"], suites=GRID),
    "C15": dict(models=["patchgrid", "axlocate"], suites=[T("tract:gridlocate", cases="patchgrid"), T("tract:locate")]),
    "C16": dict(models=["patchgrid", "axsearch"], suites=[T("tract:gridlists", cases="patchgrid"), T("tract:plist")]),
    "C18": dict(models=["patchgrid"], suites=[T("tract:place")]),
    "C19": dict(models=["patchgrid"], suites=[T("tract:poly")]),
    "C10": dict(models=["rings", "axnum"], suites=[M("map:rings")]),
    "C11": dict(models=["rings", "axring"], suites=[M("map:rings")]),
    "C12": dict(models=["rings"], suites=[M("map:arr")]),
    "C13": dict(models=["rings"], suites=[M("map:fat")]),
    "C14": dict(models=["healpix"], suites=[M("map:find")]),
    "C17": dict(models=["rings", "axsearch"], suites=[M("map:tpl")]),
    "C20": dict(models=[], suites=[M("map:dodec")]),
    "C25": dict(models=["rings"], suites=[M("map:cover")]),
    "C26": dict(models=["healpix"], suites=[M("map:where"), T("tract:place")]),
    "C28": dict(models=[], suites=[M("map:log")]),
    "C05": dict(models=["sky", "skyany", "skysim", "skylives"], suites=[Y("sys:sched", cases="skysim"), Y("sys:lives", cases="skylives")]),
    "C06": dict(models=["sky", "skyany", "skysim", "skyweave"], suites=[Y("sys:sched", cases="skysim"), Y("sys:weave", cases="skyweave"), Y("sys:large")]),
    "C07": dict(models=["sky", "skyany", "skysim"], suites=[Y("sys:sched", cases="skysim"), Y("sys:pickles")]),
    "C09": dict(models=["sky", "skyany", "skysim"], suites=[Y("sys:sched", cases="skysim"), Y("sys:frozen")]),
    "C08": dict(models=["config", "sky"], suites=[C("cfg:changes", cases="config"), C("cfg:random"), C("cfg:families", cases="config"), Y("sys:pickles")]),
    "C27": dict(models=["config"], suites=[C("cfg:config")]),
    "C21": dict(models=["packer", "axpack"], suites=PACK),
    "C22": dict(models=["packer"], suites=PACK),
    "C23": dict(models=["register"], models_thorough=["register", "registerdeep"],
                suites=[G("reg:content"), G("reg:hist", cases="register")]),
    "C29": dict(models=["identity"], suites=[V("same:pairs", cases="identity"), V("same:direct"), V("same:maps")]),
    "C30": dict(models=[], suites=[H("help:helpers")]),
    "C31": dict(models=["hashlayout"], suites=[S("hash:layout")]),
    "C32": dict(models=["threads", "threadsdeep", "threadssim"],
                suites=[Z("thr:sched", cases="threads"), Z("thr:three", cases="threadssim"), Z("thr:cuts")]),
    "C33": dict(models=["serial", "serialsim", "serialsim3"],
                suites=[P("conc:two", cases="serialsim"), P("conc:three", cases="serialsim3")]),
    "C34": dict(models=["primary"], suites=[dict(suite="prim:merge", module="TracePrim")]),
    "C35": dict(models=["lazy", "lazyany", "lazysim"], suites=[dict(suite="lazy:sched", module="TraceLazy", cases="lazysim")]),
    # what holds for the maps of the package holds for those of a user
    "C36": dict(models=["sky", "skyany", "skysim", "numbering"], also=["C05", "C06", "C07", "C09", "C23", "C24"],
                suites=[Y("own:sched", cases="skysim"), dict(suite="own:pairs", module="TraceOwn"), G("own:reg")]),
    "C24": dict(models=["register", "registerany"], models_thorough=["register", "registerany", "registerdeep"],
                suites=[G("reg:hist", cases="register"), G("reg:faults")]),
}
