"""C10: microphysics conserves quanta."""
from checks import plugin_concrete
from checks.plugin_common import ASSUMPTIONS, SPECS, provider_unit, unit_for  # noqa: F401
import checks.plugin_specs  # noqa: F401

KW = {}


def units():
    us = []
    for s in SPECS:
        if s.prop == "C10":
            for kw in KW.get(s.cls, [{}]):
                us.append(unit_for(s, **kw))
    us.append(provider_unit({"C10"}))
    return us


def cases(rng, tier):
    return plugin_concrete.cases(rng, tier, "C10")


run_case = plugin_concrete.run_case
