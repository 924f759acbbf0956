%include core
%include hdf5
%include write
%include vtk
%fn src/converter/legacytools.rs get_field
@ret r
@generics <T: Scalar>
@panics_if legacy_pieces(filename@) is None || !(piece_of(legacy_pieces(filename@)->0[0], None).data.point@[0] is Field)
@requires
    legacy_ok(filename@),
@ensures
    r@ == vtk_field::<T>(Src::Legacy, filename@, field@),
@panic 0
    assert(legacy_pieces(filename@) is None);
@panic 1
    assert(!(piece_of(legacy_pieces(filename@)->0[0], None).data.point@[0] is Field));
@closure 0
    |__p0: &&DataArrayBase| -> (b: bool) ensures b == (__p0.name@ == field@)
@entry
    reveal(vtk_field);
    proof { if let Attribute::Field { data_array, .. } = piece_of(legacy_pieces(filename@)->0[0], None).data.point@[0] { let a = data_array@;
        assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).name@ == field@ && (forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).name@ != field@) implies first_of(a, field@) == Some(a[i]) by { lemma_first_of(a, field@, i); } } }
%fn src/converter/legacytools.rs get_positions
@ret r
@generics <T: Scalar>
@panics_if legacy_pieces(filename@) is None
@requires
    legacy_ok(filename@),
@ensures
    r@ == vtk_points::<T>(Src::Legacy, filename@),
@panic 0
    assert(legacy_pieces(filename@) is None);
@entry
    reveal(vtk_points);
