"""A generator plug-in for gyp (used with -f /.../vgen.py): it writes what a generator receives to the file
named by the generator flag vgen_out, and declares the capabilities requested by generator flags."""
import json
import os

generator_default_variables = {
    "OS": "linux", "CONFIGURATION_NAME": "$(BUILDTYPE)", "EXECUTABLE_PREFIX": "", "EXECUTABLE_SUFFIX": "",
    "STATIC_LIB_PREFIX": "lib", "STATIC_LIB_SUFFIX": ".a", "SHARED_LIB_PREFIX": "lib", "SHARED_LIB_SUFFIX": ".so",
    "INTERMEDIATE_DIR": "$(obj)", "SHARED_INTERMEDIATE_DIR": "$(sobj)", "PRODUCT_DIR": "$(out)", "LIB_DIR": "$(lib)",
    "RULE_INPUT_ROOT": "$(root)", "RULE_INPUT_DIRNAME": "$(dir)", "RULE_INPUT_PATH": "$(path)",
    "RULE_INPUT_EXT": "$(ext)", "RULE_INPUT_NAME": "$(name)",
}
generator_supports_multiple_toolsets = False
generator_wants_static_library_dependencies_adjusted = True
generator_wants_sorted_dependencies = False
generator_filelist_paths = None


def CalculateGeneratorInputInfo(params):
    global generator_supports_multiple_toolsets, generator_wants_static_library_dependencies_adjusted
    global generator_wants_sorted_dependencies, generator_filelist_paths
    f = params.get("generator_flags", {})
    if int(f.get("vgen_flout", 0)):
        top = params["options"].toplevel_dir
        generator_filelist_paths = {"toplevel": top, "qualified_out_dir": os.path.normpath(os.path.join(top, "outq"))}
    generator_supports_multiple_toolsets = bool(int(f.get("vgen_multi", 0)))
    generator_wants_static_library_dependencies_adjusted = bool(int(f.get("vgen_adjust", 0)))
    generator_wants_sorted_dependencies = bool(int(f.get("vgen_sorted", 0)))


def GenerateOutput(target_list, target_dicts, data, params):
    out = params["generator_flags"]["vgen_out"]
    files = sorted(f for f in data if f.endswith(".gyp"))
    r = {
        "order": list(target_list),
        "targets": {t: target_dicts[t] for t in target_list},
        "extra_dicts": sorted(set(target_dicts) - set(target_list)),
        "files": [[f, list(data[f].get("included_files", []))] for f in files],
        "file_targets": [[f, [t.get("target_name") + "#" + t.get("toolset", "") for t in data[f].get("targets", [])]] for f in files],
    }
    with open(out, "w") as h:
        json.dump(r, h)
