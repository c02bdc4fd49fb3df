"""C13: generators stay inside their configured ranges."""
from checks import plugin_concrete
from checks.plugin_common import ASSUMPTIONS, SPECS, unit_for  # noqa: F401
import checks.plugin_specs  # noqa: F401

KW = {"MonoEnergiesSpectra": [{"two_d": True}]}


def units():
    us = []
    for s in SPECS:
        if s.prop == "C13":
            for kw in KW.get(s.cls, [{}]):
                us.append(unit_for(s, **kw))
    return us


def cases(rng, tier):
    return plugin_concrete.cases(rng, tier, "C13")


run_case = plugin_concrete.run_case
