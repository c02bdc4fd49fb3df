"""C12: the detector chain never detects more than was produced."""
from checks import plugin_concrete
from checks.plugin_common import ASSUMPTIONS, SPECS, provider_unit, unit_for  # noqa: F401
import checks.plugin_specs  # noqa: F401

KW = {"EField": [{"flags": {"efield_position_dependence": False}}, {"flags": {"efield_position_dependence": True}}]}


def units():
    us = []
    for s in SPECS:
        if s.prop == "C12":
            for kw in KW.get(s.cls, [{}]):
                us.append(unit_for(s, **kw))
    us.append(provider_unit({"C12"}))
    return us


def cases(rng, tier):
    return plugin_concrete.cases(rng, tier, "C12")


run_case = plugin_concrete.run_case
