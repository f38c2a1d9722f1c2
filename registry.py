"""property id -> rule"""
import importlib, pkgutil, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
RULES = {}
ASSUME = ["the translation units of ThermoFun/ and python/src are parsed with the build's flags by clang 18; Database.cpp and Element.cpp against declaration stubs of the absent ChemicalFun headers",
          "real arithmetic: identities are decided over the reals, constants to a relative 1e-8; rounding is not modelled",
          "library calls (std::, nlohmann::json, spdlog) behave as documented"]
def rule(pid):
    def deco(f): RULES[pid] = f; return f
    return deco
import importlib
sys.modules.setdefault("registry", sys.modules[__name__])
for m in sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "rules")) if f.endswith(".py") and f != "__init__.py"):
    importlib.import_module("rules." + m)
