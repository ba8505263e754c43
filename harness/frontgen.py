"""A generator plug-in for gyp that records what a generator is handed (G15)."""
import json
import os

generator_default_variables = {
    "OS": "linux", "CONFIGURATION_NAME": "$(BUILDTYPE)", "STATIC_LIB_PREFIX": "lib", "STATIC_LIB_SUFFIX": ".a",
    "SHARED_LIB_PREFIX": "lib", "SHARED_LIB_SUFFIX": ".so", "EXECUTABLE_PREFIX": "", "EXECUTABLE_SUFFIX": "",
    "INTERMEDIATE_DIR": "$(obj)", "PRODUCT_DIR": "$(out)", "LIB_DIR": "$(lib)",
}
seen = {}


def table(d):
    return [{"k": k, "t": "b" if v is True else "i" if isinstance(v, int) else "s", "s": str(v)} for k, v in sorted(d.items())]


def CalculateVariables(default_variables, params):
    seen["defines"] = table({k: v for k, v in default_variables.items() if k.startswith("v")})
    seen["format"] = default_variables["GENERATOR"]
    seen["product"] = default_variables["PRODUCT_DIR_ABS"]


def GenerateOutput(target_list, target_dicts, data, params):
    o = params["options"]
    files = sorted(f for f in data if f.endswith(".gyp"))
    seen.update({
        "gflags": table(params["generator_flags"]), "gout": o.generator_output or "", "dot": params["home_dot_gyp"] or "",
        "depth": o.depth, "top": o.toplevel_dir, "roots": params["root_targets"] or [], "files": list(params["build_files"]),
        "suffix": o.suffix, "par": bool(params["parallel"]),
        "incs": [[os.path.join(os.path.dirname(f), x) for x in data[f].get("included_files", [])[1:]] for f in files],
    })
    out = os.path.join(os.environ["FRONT_OUT"], os.path.basename(__file__) + ".json")
    with open(out, "a") as h:
        h.write(json.dumps(seen) + "\n")
