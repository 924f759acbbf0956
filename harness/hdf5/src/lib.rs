//! Stands in for the hdf5 crate, which is not available here: files in memory, read and written through the part of hdf5's
//! interface that /repo uses. Only the bounded search is built against it; the proofs use the contracts of prelude/hdf5.rs.
use ndarray::{Array1, Array2, ArrayD, ArrayView, Dimension, Ix1, Ix2, IxDyn};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Debug, Clone)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub trait H5Type: Clone { fn from_f64(x: f64) -> Self; fn to_f64(&self) -> f64; }
macro_rules! h5 { ($($t:ty)*) => { $(impl H5Type for $t { fn from_f64(x: f64) -> Self { x as $t } fn to_f64(&self) -> f64 { *self as f64 } })* } }
h5!(f64 f32 usize u64 u32 u8 i64 i32);

/// a file, or a group of one
#[derive(Debug, Default, Clone)]
pub struct Content { pub groups: HashMap<String, Content>, pub sets: HashMap<String, ArrayD<f64>>, pub attrs: HashMap<String, ArrayD<f64>> }
type Shared = Arc<Mutex<Content>>;
fn files() -> &'static Mutex<HashMap<String, Shared>> {
    static F: OnceLock<Mutex<HashMap<String, Shared>>> = OnceLock::new();
    F.get_or_init(Default::default)
}
/// puts a file in place
pub fn put(name: &str, c: Content) { files().lock().unwrap().insert(name.into(), Arc::new(Mutex::new(c))); }
pub fn get(name: &str) -> Option<Content> { files().lock().unwrap().get(name).map(|c| c.lock().unwrap().clone()) }
pub fn remove(name: &str) { files().lock().unwrap().remove(name); }

#[derive(Debug, Clone)]
pub struct Group { file: String, root: Shared, path: Option<String> }
#[derive(Debug, Clone)]
pub struct File(Group);
impl std::ops::Deref for File { type Target = Group; fn deref(&self) -> &Group { &self.0 } }
/// a dataset or an attribute: what it holds, and where it is and the file's number type if it was just created
#[derive(Debug, Clone)]
pub struct Container { data: ArrayD<f64>, at: Option<(Group, bool, String, fn(f64) -> f64)> }
pub type Dataset = Container;
pub type Attribute = Container;

impl File {
    pub fn open(name: &str) -> Result<File> {
        let root = files().lock().unwrap().get(name).cloned().ok_or(Error(format!("no file {name}")))?;
        Ok(File(Group { file: name.into(), root, path: None }))
    }
    pub fn create(name: &str) -> Result<File> { put(name, Content::default()); File::open(name) }
}
impl Group {
    fn content<R>(&self, f: impl FnOnce(&mut Content) -> R) -> R {
        let mut c = self.root.lock().unwrap_or_else(|e| e.into_inner());
        f(match &self.path { None => &mut c, Some(p) => c.groups.get_mut(p).unwrap() })
    }
    pub fn filename(&self) -> String { self.file.clone() }
    pub fn group(&self, name: &str) -> Result<Group> {
        if self.path.is_some() || !self.content(|c| c.groups.contains_key(name)) { return Err(Error(format!("no group {name}"))); }
        Ok(Group { path: Some(name.into()), ..self.clone() })
    }
    pub fn dataset(&self, name: &str) -> Result<Dataset> { self.content(|c| c.sets.get(name).cloned()).map(|data| Container { data, at: None }).ok_or(Error(format!("no dataset {name}"))) }
    pub fn attr(&self, name: &str) -> Result<Attribute> { self.content(|c| c.attrs.get(name).cloned()).map(|data| Container { data, at: None }).ok_or(Error(format!("no attribute {name}"))) }
    pub fn create_group(&self, name: &str) -> Result<Group> {
        if self.path.is_some() || name.contains('/') { return Err(Error(format!("nested group {name}"))); }
        self.content(|c| if c.groups.contains_key(name) || c.sets.contains_key(name) { Err(Error(format!("{name} exists"))) } else { c.groups.insert(name.into(), Content::default()); Ok(()) })?;
        self.group(name)
    }
    fn builder<T: H5Type>(&self, attr: bool) -> Builder<T> { Builder { group: self.clone(), attr, data: None, t: PhantomData } }
    pub fn new_attr<T: H5Type>(&self) -> Builder<T> { self.builder(true) }
    pub fn new_dataset<T: H5Type>(&self) -> Builder<T> { self.builder(false) }
    pub fn new_attr_builder(&self) -> Builder<()> { Builder { group: self.clone(), attr: true, data: None, t: PhantomData } }
    pub fn new_dataset_builder(&self) -> Builder<()> { Builder { group: self.clone(), attr: false, data: None, t: PhantomData } }
}
pub struct Builder<T> { group: Group, attr: bool, data: Option<ArrayD<f64>>, t: PhantomData<T> }
impl<T> Builder<T> {
    fn make(self, name: &str, data: ArrayD<f64>, f: fn(f64) -> f64) -> Result<Container> {
        let attr = self.attr;
        self.group.content(|c| {
            if if attr { c.attrs.contains_key(name) } else { c.sets.contains_key(name) || c.groups.contains_key(name) } { return Err(Error(format!("{name} exists"))); }
            if attr { &mut c.attrs } else { &mut c.sets }.insert(name.into(), data.clone());
            Ok(())
        })?;
        Ok(Container { data, at: Some((self.group, attr, name.into(), f)) })
    }
}
impl Builder<()> {
    pub fn with_data<'d, A: Into<ArrayView<'d, T, D>>, T: H5Type + 'd, D: Dimension>(self, arr: A) -> Builder<f64> {
        let v: ArrayView<'d, T, D> = arr.into();
        Builder { group: self.group, attr: self.attr, data: Some(v.map(|x| x.to_f64()).into_dyn()), t: PhantomData }
    }
}
impl<T: H5Type> Builder<T> {
    pub fn create(mut self, name: &str) -> Result<Container> {
        let data = self.data.take().unwrap_or(ArrayD::zeros(IxDyn(&[])));
        self.make(name, data, |x| T::from_f64(x).to_f64())
    }
}
impl Container {
    pub fn shape(&self) -> Vec<usize> { self.data.shape().to_vec() }
    pub fn read_2d<T: H5Type>(&self) -> Result<Array2<T>> { self.data.clone().into_dimensionality::<Ix2>().map(|a| a.mapv(T::from_f64)).map_err(|e| Error(e.to_string())) }
    pub fn read_1d<T: H5Type>(&self) -> Result<Array1<T>> { self.data.clone().into_dimensionality::<Ix1>().map(|a| a.mapv(T::from_f64)).map_err(|e| Error(e.to_string())) }
    pub fn read_raw<T: H5Type>(&self) -> Result<Vec<T>> { Ok(self.data.iter().map(|x| T::from_f64(*x)).collect()) }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> { if self.data.ndim() == 0 { Ok(T::from_f64(*self.data.first().unwrap())) } else { Err(Error("not a scalar".into())) } }
    pub fn write_scalar<T: H5Type>(&self, x: &T) -> Result<()> {
        let (group, attr, name, f) = self.at.as_ref().ok_or(Error("read only".into()))?;
        let data = ArrayD::from_elem(IxDyn(&[]), f(x.to_f64()));
        if self.data.ndim() != 0 { return Err(Error("not a scalar".into())); }
        group.content(|c| if *attr { &mut c.attrs } else { &mut c.sets }.insert(name.clone(), data));
        Ok(())
    }
}
