"""All cases."""
from cases_bv import CASES, Anchor, Case  # noqa: F401
for _m in ("cases_io", "cases_idx", "cases_int", "cases_arr", "cases_text", "cases_misc", "cases_more"):
    try:
        __import__(_m)
    except ModuleNotFoundError as e:
        if e.name != _m:
            raise
