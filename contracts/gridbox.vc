// Box<dyn GridFunctions3D>: every method by its contract, which cart.vc and cyl.vc prove for the two implementations.
%fn src/grid.rs GridFunctions3D::is_inside external
@self GridBox
@use is_inside
%fn src/grid.rs GridFunctions3D::cell_id external
@self GridBox
@use cell_id
%fn src/grid.rs GridFunctions3D::add_to_cell external
@self GridBox
@use add_to_cell
%fn src/grid.rs GridFunctions3D::get_value external
@self GridBox
@use get_value
%fn src/grid.rs GridFunctions3D::add_value external
@self GridBox
@use add_value
%fn src/grid.rs GridFunctions3D::insert external
@self GridBox
@use insert
%fn src/grid.rs GridFunctions3D::add_trajectory_value external
@self GridBox
@use add_trajectory_value
%fn src/grid.rs GridFunctions3D::divide_by_array external
@self GridBox
@use divide_by_array
%fn src/grid.rs GridFunctions3D::divide_by_scalar external
@self GridBox
@use divide_by_scalar
%fn src/grid.rs GridFunctions3D::divide_by_weight external
@self GridBox
@use divide_by_weight
%fn src/grid.rs GridFunctions3D::new_zeros external
@self GridBox
@use new_zeros
%fn src/grid.rs GridFunctions3D::collapse external
@self GridBox
@use collapse
%fn src/grid.rs GridFunctions3D::collapse_weight external
@self GridBox
@use collapse_weight
%fn src/grid.rs GridFunctions3D::collapse_two external
@self GridBox
@use collapse_two
%fn src/grid.rs GridFunctions3D::collapse_two_weight external
@self GridBox
@use collapse_two_weight
%fn src/grid.rs GridFunctions3D::slice external
@self GridBox
@use slice
%fn src/grid/cartesian_grid.rs CartesianGrid3D::slice_idx external
@self GridBox
@use slice_idx
%fn src/grid.rs GridFunctions3D::get_xpositions external
@self GridBox
@use get_xpositions
%fn src/grid.rs GridFunctions3D::get_ypositions external
@self GridBox
@use get_ypositions
%fn src/grid.rs GridFunctions3D::get_zpositions external
@self GridBox
@use get_zpositions
%fn src/grid.rs GridFunctions3D::get_limits external
@self GridBox
@use get_limits
%fn src/grid.rs GridFunctions3D::get_cells external
@self GridBox
@use get_cells
%fn src/grid.rs GridFunctions3D::get_data external
@self GridBox
@use get_data
%fn src/grid.rs GridFunctions3D::get_weights external
@self GridBox
@use get_weights
%fn src/grid.rs GridFunctions3D::is_cylindrical external
@self GridBox
@use is_cylindrical
%fn src/grid.rs GridFunctions3D::set_data external
@self GridBox
@use set_data
%fn src/grid.rs GridFunctions3D::set_weights external
@self GridBox
@use set_weights
%fn src/grid.rs GridFunctions3D::outlier_removal external
@self GridBox
@use outlier_removal
