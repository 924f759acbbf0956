//! Stands in for the vtkio crate, which is not available here: files in memory, read through the part of vtkio's interface that
//! /repo's converters use. Only the bounded search is built against it.
pub mod model {
    use std::collections::HashMap;
    use std::path::Path;
    use std::sync::{Mutex, OnceLock};
    pub trait Scalar: Copy { fn from_f64(x: f64) -> Self; }
    macro_rules! sc { ($($t:ty)*) => { $(impl Scalar for $t { fn from_f64(x: f64) -> Self { x as $t } })* } }
    sc!(f64 f32 usize u64 u32 u8 i64 i32);
    #[derive(Debug)]
    pub struct Error(pub String);
    #[derive(Debug, Clone, Default)]
    pub struct IOBuffer(pub Vec<f64>);
    impl IOBuffer { pub fn cast_into<T: Scalar>(self) -> Option<Vec<T>> { Some(self.0.into_iter().map(T::from_f64).collect()) } }
    #[derive(Debug, Clone)]
    pub struct DataArrayBase { pub name: String, pub data: IOBuffer }
    pub type FieldArray = DataArrayBase;
    pub type DataArray = DataArrayBase;
    #[derive(Debug, Clone)]
    pub enum Attribute { DataArray(DataArrayBase), Field { name: String, data_array: Vec<DataArrayBase> } }
    impl Attribute { pub fn name(&self) -> &str { match self { Attribute::DataArray(a) => &a.name, Attribute::Field { name, .. } => name } } }
    #[derive(Debug, Clone, Default)]
    pub struct Attributes { pub point: Vec<Attribute>, pub cell: Vec<Attribute> }
    #[derive(Debug, Clone, Default)]
    pub struct Piece { pub points: IOBuffer, pub data: Attributes }
    impl Piece { pub fn load_piece_data(&self, _source: Option<&Path>) -> Result<Piece, Error> { Ok(self.clone()) } }
    #[derive(Debug, Clone)]
    pub enum DataSet { PolyData { meta: (), pieces: Vec<Piece> }, UnstructuredGrid { meta: (), pieces: Vec<Piece> } }
    #[derive(Debug, Clone)]
    pub struct Vtk { pub data: DataSet }
    fn files() -> &'static Mutex<HashMap<String, Vtk>> {
        static F: OnceLock<Mutex<HashMap<String, Vtk>>> = OnceLock::new();
        F.get_or_init(Default::default)
    }
    /// puts a file in place
    pub fn put(name: &str, v: Vtk) { files().lock().unwrap().insert(name.into(), v); }
    pub fn remove(name: &str) { files().lock().unwrap().remove(name); }
    impl Vtk {
        pub fn import(name: impl AsRef<Path>) -> Result<Vtk, Error> { files().lock().unwrap().get(name.as_ref().to_str().unwrap()).cloned().ok_or(Error(format!("no file {:?}", name.as_ref()))) }
        pub fn load_all_pieces(&mut self) -> Result<(), Error> { Ok(()) }
    }
}
