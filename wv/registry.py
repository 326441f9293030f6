"""Property id -> contracts."""
from importlib import import_module


def _m(name):
    return import_module("wv.props." + name)


PROPS = {
    "A19": dict(level="proof", cases=lambda t: _m("reports").cases("A19", t)),
    "A18": dict(level="proof", cases=lambda t: _m("composition").cases("A18", t)),
    "A17": dict(level="proof", cases=lambda t: _m("memory").cases("A17", t)),
    "A16": dict(level="proof", cases=lambda t: _m("debugtools").cases("A16", t)),
    "A15": dict(level="proof", cases=lambda t: _m("access").cases("A15", t)),
    "A12": dict(level="proof", cases=lambda t: _m("streams").cases("A12", t)),
    "A13": dict(level="proof", cases=lambda t: _m("encode").cases("A13", t)),
    "A14": dict(level="proof", cases=lambda t: _m("numba_ewma").cases("A14", t)),
    "A11": dict(level="proof", cases=lambda t: _m("gym").cases("A11", t) + _m("gymhost").cases("A11", t)),
    "A10": dict(level="proof", cases=lambda t: _m("online").cases("A10", t)),
    "A09": dict(level="proof", cases=lambda t: _m("events").cases("A09", t)),
    "A08": dict(level="proof", cases=lambda t: _m("arma").cases("A08", t)),
    "A07": dict(level="proof", cases=lambda t: _m("batching").cases("A07", t)),
    "A05": dict(level="proof", cases=lambda t: _m("ewmvar").cases("A05", t)),
    "A06": dict(level="proof", cases=lambda t: _m("unrolling").cases("A06", t) + _m("unrolling_host").cases("A06", t)),
    "A03": dict(level="proof", cases=lambda t: [c for f in ("counter_cases","ffill_cases","fill_cases","has_changed_cases","ohlc_cases") for c in getattr(_m("simple"),f)("A03", t)]),
    "A04": dict(level="proof", cases=lambda t: _m("simple").mask_cases("A04", t)),
    "A02": dict(level="proof", cases=lambda t: _m("windows").cases("A02", t)),
    "A01": dict(level="proof", cases=lambda t: _m("ewma").ewma_cases("A01", "haiku", t) + _m("ewma").ewma_cases("A01", "flax", t)),
}
