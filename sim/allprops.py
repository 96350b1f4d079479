"""registry of all scenarios"""
import importlib

PROPS = {}
for _m in ('props', 'props2', 'props3', 'props4', 'props5', 'props6'):
    try:
        PROPS.update(importlib.import_module(_m).PROPS)
    except ModuleNotFoundError as e:
        if e.name != _m:
            raise
