"""The properties: statement, anchors, and the harness jobs that decide each.  gen.py derives properties.jsonl and MANIFEST.json."""
from nsxrun import Harness

PROPS = {}
NA = {}
CONC = ("--conc-addr",)


def J(h, *params, **kw): return dict(h=h, params=list(params), **kw)
def W(h, *params, **kw): return dict(h=h, params=list(params), jobs=8, **kw)


def P(id, title, statement, over, quant, why, files, mech, quick, thorough=None, reach=(), bounds="", assumptions=(), state=None, observe=None):
    assert id not in PROPS and len(title) <= 80, id
    PROPS[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, quick=quick, thorough=thorough or quick,
                     reach=list(reach), bounds=bounds, assumptions=list(assumptions), state=state, observe=observe)


def NAP(id, title, statement, over, quant, why, files, mech, reason):
    assert id not in PROPS and len(title) <= 80, id
    NA[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason)


import p_containers  # noqa: E402,F401  each p_*.py registers its properties with P()
import p_trees  # noqa: E402,F401
import p_text  # noqa: E402,F401
import p_algo  # noqa: E402,F401
import p_file  # noqa: E402,F401
import p_own  # noqa: E402,F401
import p_util  # noqa: E402,F401
import p_io  # noqa: E402,F401
import p_num  # noqa: E402,F401
import p_task  # noqa: E402,F401
import p_na  # noqa: E402,F401
