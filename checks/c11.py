"""C11: efficiencies and acceptances stay in [0, 1]."""
from checks import plugin_concrete
from checks.plugin_common import ASSUMPTIONS, SPECS, acceptance_unit, provider_unit, unit_for  # noqa: F401
import checks.plugin_specs  # noqa: F401

KW = {"MonoEnergiesClipEff": [{"two_d": True}]}


def units():
    us = []
    for s in SPECS:
        if s.prop == "C11":
            for kw in KW.get(s.cls, [{}]):
                us.append(unit_for(s, **kw))
    us.append(provider_unit({"C11"}))
    us.append(acceptance_unit())
    return us


def cases(rng, tier):
    return plugin_concrete.cases(rng, tier, "C11")


run_case = plugin_concrete.run_case
