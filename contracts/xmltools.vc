%include core
%include hdf5
%include write
%include vtk
%raw
// one more array, one more piece
pub proof fn lemma_arrays<T>(a: Seq<Attribute>, field: Seq<char>, i: int) requires 0 <= i < a.len()
    ensures arrays_of::<T>(a.subrange(0, i + 1), field) == arrays_of::<T>(a.subrange(0, i), field) + (match a[i] { Attribute::DataArray(d) => if d.name@ == field { cast::<T>(d.data) } else { Seq::empty() }, _ => Seq::empty() })
{ assert(a.subrange(0, i + 1).drop_last() =~= a.subrange(0, i)); }
pub proof fn lemma_pieces<T>(ps: Seq<RawPiece>, file: Seq<char>, field: Seq<char>, i: int) requires 0 <= i < ps.len()
    ensures xml_field::<T>(ps.subrange(0, i + 1), file, field) == xml_field::<T>(ps.subrange(0, i), file, field) + arrays_of::<T>(piece_of(ps[i], Some(file)).data.point@, field), xml_points::<T>(ps.subrange(0, i + 1), file) == xml_points::<T>(ps.subrange(0, i), file) + cast::<T>(piece_of(ps[i], Some(file)).points)
{ assert(ps.subrange(0, i + 1).drop_last() =~= ps.subrange(0, i)); }
%end
%fn src/converter/xmltools.rs get_field
@ret r
@generics <T: Scalar>
@panics_if xml_pieces(*vtk_type, filename@) is None
@ensures
    r@ == vtk_field::<T>(Src::Xml(*vtk_type), filename@, field@),
@entry
    reveal(vtk_field); let ghost ps = xml_pieces(*vtk_type, filename@)->0; let ghost fl_ = field@; let ghost fn_ = filename@;
@panic 0
    assert(xml_pieces(*vtk_type, filename@) is None);
@panic 1
    assert(xml_pieces(*vtk_type, filename@) is None);
@loop 0
    invariant __i0 <= __n0, __n0 == __c0@.len(), __c0@ == ps, filepath.name() == fn_, fn_ == filename@, fl_ == field@, output_vector@ == xml_field::<T>(ps.subrange(0, __i0 as int), fn_, fl_),
    decreases __n0 - __i0,
@pre 0
    assert(ps.subrange(0, 0) =~= Seq::empty());
@body 0
    proof { lemma_pieces::<T>(ps, fn_, fl_, __i0 - 1); assert(ps.subrange(0, __i0 as int) =~= ps.subrange(0, (__i0 - 1) + 1)); }
@post 0
    assert(ps.subrange(0, ps.len() as int) =~= ps);
@loop 1
    invariant __i1 <= __n1, refs(__c1@, attributes@), __n1 == attributes@.len(), fl_ == field@, output_vector@ == before + arrays_of::<T>(attributes@.subrange(0, __i1 as int), fl_),
    decreases __n1 - __i1,
@pre 1
    let ghost before = output_vector@; assert(attributes@.subrange(0, 0) =~= Seq::empty());
@body 1
    proof { lemma_arrays::<T>(attributes@, fl_, __i1 - 1); }
@post 1
    assert(attributes@.subrange(0, attributes@.len() as int) =~= attributes@);
@loop 2
    invariant __i2 <= __n2, __n2 == __c2@.len(), __c2@ == ps, filepath.name() == fn_, fn_ == filename@, fl_ == field@, output_vector@ == xml_field::<T>(ps.subrange(0, __i2 as int), fn_, fl_),
    decreases __n2 - __i2,
@pre 2
    assert(ps.subrange(0, 0) =~= Seq::empty());
@body 2
    proof { lemma_pieces::<T>(ps, fn_, fl_, __i2 - 1); assert(ps.subrange(0, __i2 as int) =~= ps.subrange(0, (__i2 - 1) + 1)); }
@post 2
    assert(ps.subrange(0, ps.len() as int) =~= ps);
@loop 3
    invariant __i3 <= __n3, refs(__c3@, attributes@), __n3 == attributes@.len(), fl_ == field@, output_vector@ == before + arrays_of::<T>(attributes@.subrange(0, __i3 as int), fl_),
    decreases __n3 - __i3,
@pre 3
    let ghost before = output_vector@; assert(attributes@.subrange(0, 0) =~= Seq::empty());
@body 3
    proof { lemma_arrays::<T>(attributes@, fl_, __i3 - 1); }
@post 3
    assert(attributes@.subrange(0, attributes@.len() as int) =~= attributes@);
%fn src/converter/xmltools.rs get_positions
@ret r
@generics <T: Scalar>
@panics_if xml_pieces(*vtk_type, filename@) is None
@ensures
    r@ == vtk_points::<T>(Src::Xml(*vtk_type), filename@),
@entry
    reveal(vtk_points); let ghost ps = xml_pieces(*vtk_type, filename@)->0; let ghost fn_ = filename@;
@panic 0
    assert(xml_pieces(*vtk_type, filename@) is None);
@panic 1
    assert(xml_pieces(*vtk_type, filename@) is None);
@loop 0
    invariant __i0 <= __n0, __n0 == __c0@.len(), __c0@ == ps, filepath.name() == fn_, fn_ == filename@, output_vector@ == xml_points::<T>(ps.subrange(0, __i0 as int), fn_),
    decreases __n0 - __i0,
@pre 0
    assert(ps.subrange(0, 0) =~= Seq::empty());
@body 0
    proof { lemma_pieces::<T>(ps, fn_, ""@, __i0 - 1); }
@post 0
    assert(ps.subrange(0, ps.len() as int) =~= ps);
@loop 1
    invariant __i1 <= __n1, __n1 == __c1@.len(), __c1@ == ps, filepath.name() == fn_, fn_ == filename@, output_vector@ == xml_points::<T>(ps.subrange(0, __i1 as int), fn_),
    decreases __n1 - __i1,
@pre 1
    assert(ps.subrange(0, 0) =~= Seq::empty());
@body 1
    proof { lemma_pieces::<T>(ps, fn_, ""@, __i1 - 1); }
@post 1
    assert(ps.subrange(0, ps.len() as int) =~= ps);
