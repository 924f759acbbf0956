"""What each check verifies: property -> contract files with the functions of /repo that carry the property, and what it relies on."""

def cart(*n): return [f"CartesianGrid3D::{x}" for x in n]
def cyl(*n): return [f"CylindricalGrid3D::{x}" for x in n]
def vg(*n): return [f"VectorGrid::{x}" for x in n]
def sel(*n): return [f"ParticleSelector::{x}" for x in n]

LOOK = ("is_inside", "cell_id")
GETTERS = ("get_xpositions", "get_ypositions", "get_zpositions", "get_limits", "get_cells", "get_data", "get_weights", "is_cylindrical")
GRID = "the contracts of the grid functions (contracts/gridbox.vc) on a boxed grid; discharged for both geometries by the checks of C01-C09"
SELECT = "the contract of ParticleSelector::is_valid and timestep_valid; discharged by the check of C11"
DATA = "a DataManager returns timestep k of one fixed dataset from get_timestep, get_timestep_unbuffered and get_timestep_buffer, and its global statistics describe that dataset (contracts/data.vc; discharged for the two file readers by the check of C32)"
LATER = "the contract of GlobalStats::timestep_at_seconds_closest (contracts/later.vc); discharged by the check of C13"
DISPATCH = "Rust's dynamic dispatch of GridFunctions3D: a boxed grid is one of the two verified implementations"

PLAN = {
    "C01": dict(units={"cart": cart("is_inside", "cell_id")}),
    "C02": dict(units={"cyl": cyl("to_cylindrical", "is_inside", "cell_id")}),
    "C03": dict(units={"cart": cart("new", *GETTERS), "cyl": cyl("new", *GETTERS)}),
    "C04": dict(units={"cart": cart(*LOOK, "add_to_cell", "get_value", "add_value", "insert"),
                       "cyl": cyl("to_cylindrical", *LOOK, "add_to_cell", "get_value", "add_value", "insert")}),
    "C05": dict(units={"cart": cart(*LOOK, "add_to_cell", "cell_ids_in_trajectory", "add_trajectory_value"),
                       "cyl": cyl("to_cylindrical", *LOOK, "add_to_cell", "add_trajectory_value")}),
    "C06": dict(units={"cart": cart("divide_by_array", "divide_by_scalar", "divide_by_weight", "new_zeros", "set_data", "set_weights", "get_data", "get_weights"),
                       "cyl": cyl("divide_by_array", "divide_by_scalar", "divide_by_weight", "new_zeros", "set_data", "set_weights", "get_data", "get_weights")}),
    "C07": dict(units={"cart": cart("collapse", "collapse_weight", "collapse_two", "collapse_two_weight"),
                       "cyl": cyl("collapse", "collapse_weight", "collapse_two", "collapse_two_weight")}),
    "C08": dict(units={"cart": cart("slice", "slice_idx"), "cyl": cyl("slice", "slice_idx")}),
    "C09": dict(units={"cart": cart("outlier_removal"), "cyl": cyl("outlier_removal")}),
    "C10": dict(units={"vector": ["CylindricalGrid3D::to_cylindrical"] + vg("new", "velocity_calculation", "add_value", "divide_by_array", "divide_by_scalar", "divide_by_weight", "insert", "add_to_cell",
                                       "add_trajectory_value", "set_weights", "outlier_removal", "is_inside", "cell_id", *GETTERS, "collapse_two", "collapse_two_weight", "collapse_weight", "new_zeros")},
                relies=[GRID, DISPATCH]),
    "C11": dict(units={"selector": sel("new", "default", "is_radius_valid", "is_cloud_valid", "is_density_valid", "is_particleid_valid", "is_valid", "timestep_valid", "set_time")}),
    "C13": dict(units={"time": ["GlobalStats::timestep_at_seconds_closest"]}),
    "C14": dict(units={"velocityfield": ["Granular::velocityfield"]}, relies=[GRID, SELECT, DATA, DISPATCH]),
    "C15": dict(units={"numberfield": ["Granular::numberfield"]}, relies=[GRID, SELECT, DATA, DISPATCH]),
    "C16": dict(units={"vectorfield": ["Granular::vectorfield"]}, relies=[GRID, SELECT, DATA, DISPATCH, "the contracts of VectorGrid's functions; discharged by the check of C10"]),
}
_F = [GRID, SELECT, DATA, DISPATCH]
PLAN.update({
    "C17": dict(units={"occupancy": ["Granular::occupancyfield", "Granular::homogenity_index"]}, relies=_F),
    "C18": dict(units={"dispersion": ["Granular::dispersion"]}, relies=_F + [LATER]),
    "C19": dict(units={"grantemp": ["Granular::granular_temperature_field"]}, relies=_F),
    "C20": dict(units={"histogram": ["Granular::histogram"]}, relies=_F),
    "C21": dict(units={"meanvelocity": ["Granular::mean_velocity_showcase", "Granular::mean_velocity"]}, relies=_F),
    "C22": dict(units={"lacey": ["Mixing::lacey_mixing"]}, relies=_F),
    "C23": dict(units={"concentration": ["Mixing::concentration_field"]}, relies=_F),
    "C24": dict(units={"msd": ["Mixing::msd_field", "Mixing::msd"]}, relies=_F + [LATER]),
    "C25": dict(units={"circulation": ["Conditional::circulation_time"]}, relies=[SELECT, DATA]),
    "C26": dict(units={"circulation": ["Conditional::circulation_time_two_boundary"]}, relies=[SELECT, DATA]),
    "C27": dict(units={"extract": ["Extraction::extract"]}, relies=[DATA]),
})
PLAN.update({
    "C28": dict(units={"maths": ["minmax", "meshgrid", "meshgrid3d", "flatten_2d", "flatten_3d", "nan_mean", "nan_std"]}),
    "C29": dict(units={"rotation": ["rotate_position", "rotate_velocity"]}),
    "C30": dict(units={"tables": ["sort_by_column", "make_sortlist", "sort_by_array", "is_sorted"]}),
    "C31": dict(units={"tables": ["interpolate", "interpolate_step", "is_sorted"]}),
    "C32": dict(units={u: [f"{t}::{x}" for x in ("new", "global_stats", "read_single", "update", "update_extra", "get_timestep", "get_timestep_unbuffered", "setup_buffer", "get_timestep_buffer")] for u, t in (("pdata", "PData"), ("tdata", "TData"))},
                relies=["the hdf5 library returns what the file holds, the file does not change while it is read and has the layout the converters write (prelude/hdf5.rs, file_ok in contracts/pdata.vc and contracts/tdata.vc)"]),
    "C36": dict(units={"converter": ["csv_converter"]},
                relies=["the contracts of is_sorted, sort_by_column, interpolate and velocity_polynom (contracts/tables.vc); discharged by the checks of C30, C31 and C35",
                        "the csv, ndarray-csv and hdf5 libraries: the table of a file is a function of its name and the reader's settings, what is created in a file under a name is read back from it (prelude/write.rs)"],
                note="The dead branch that calls velocity_polynom_parallel carries no contract."),
    "C37": dict(units={"vtk": [f"{t}::{x}" for t in ("XMLVTKConverter", "LegacyVTKConverter") for x in ("new", "add_velocity_field", "add_id_field", "add_radius_field", "add_type_field", "add_diameter_field", "write_hdf5_from_files", "write_hdf5_from_folder")], "xmltools": ["get_field", "get_positions"], "legacytools": ["get_field", "get_positions"]},
                relies=["the contracts of make_sortlist and sort_by_array (contracts/tables.vc); discharged by the check of C30",
                        "the regex and hdf5 libraries: a filter's first match in a name is a function of both, what is created in a file under a name is read back from it (prelude/write.rs, prelude/vtk.rs)",
                        "the vtkio library: what a file and its pieces hold is a function of its name (prelude/vtk.rs)",
                        "the listing of a folder is a function of its name while it is read; natord::compare is a total order of texts (prelude/folder.rs)"]),
    "C38": dict(units={"chain": ["csv_multi_chain"], "idline": ["csv_multi_idline", "sort_by_id", "remove_columns"], "multis": ["csv_multi_converter"]},
                relies=["the contracts of is_sorted, sort_by_column, interpolate and velocity_polynom (contracts/tables.vc); discharged by the checks of C30, C31 and C35",
                        "the csv, ndarray-csv and hdf5 libraries: the table of a file is a function of its name and the reader's settings, what is created in a file under a name is read back from it (prelude/write.rs)"],
                note="velocity_polynom_parallel, which chain mode uses from 200000 records on, carries no contract: tables are below that."),
    "C39": dict(units={"files": ["csv_multi_file_time_step"]},
                relies=["the csv, ndarray-csv and hdf5 libraries: the table of a file is a function of its name and the reader's settings, what is created in a file under a name is read back from it (prelude/write.rs)"],
                note="The options vel and interpolate do nothing in the code and are outside the property."),
    "C35": dict(units={"tables": ["velocity_polynom"]}, relies=["polyfit_rs::polyfit returns the coefficients of a least-squares polynomial of the given degree for finite data, power n at index n (dependency)"]),
})
for _k, _v in PLAN.items():
    _v["bin"] = "up4conv" if _k in ("C30", "C31", "C35") else "up4read" if _k in ("C32", "C36", "C37", "C38", "C39") else "up4h"
    _v.setdefault("relies", [])
_BUILD = "the code does not compile in this sandbox ({}), so no check could replay a violation on the real code"
NOT_APPLICABLE = {
    "C33": "the Python interface is pyo3/numpy glue whose meaning lies in CPython objects, outside the verifier's language; " + _BUILD.format("pylib needs the crates of the left-out modules"),
    "C34": "the plots are built from plotly's types, outside the verifier's language; " + _BUILD.format("plotly is a git dependency that cannot be fetched"),
}
