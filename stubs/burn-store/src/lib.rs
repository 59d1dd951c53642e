//! Stand-in for `burn-store`: named tensors in a file, loaded into modules by path.
use burn::module::{Module, ModuleField, ParamId, ParamVisitor};
use burn::nd::Nd;
use burn::tensor::{KindTag, kind_of};
use burn_tensor::{DType, TensorData};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum TensorSnapshotError {
    IoError(String),
    DataError(String),
    PanicError(String),
}
impl std::fmt::Display for TensorSnapshotError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for TensorSnapshotError {}

type DataFn = Rc<dyn Fn() -> Result<TensorData, TensorSnapshotError>>;
#[derive(Clone)]
pub struct TensorSnapshot {
    data_fn: DataFn,
    pub dtype: DType,
    pub shape: Vec<usize>,
    pub path_stack: Option<Vec<String>>,
    pub container_stack: Option<Vec<String>>,
    pub tensor_id: Option<ParamId>,
}
impl TensorSnapshot {
    pub fn from_closure(data_fn: DataFn, dtype: DType, shape: Vec<usize>, path: Vec<String>, container: Vec<String>, id: ParamId) -> Self {
        TensorSnapshot { data_fn, dtype, shape, path_stack: Some(path), container_stack: Some(container), tensor_id: Some(id) }
    }
    pub fn full_path(&self) -> String {
        self.path_stack.clone().unwrap_or_default().join(".")
    }
    pub fn to_data(&self) -> Result<TensorData, TensorSnapshotError> {
        (self.data_fn)()
    }
    pub fn clone_data_fn(&self) -> DataFn {
        self.data_fn.clone()
    }
}
impl std::fmt::Debug for TensorSnapshot {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TensorSnapshot({} {:?} {:?})", self.full_path(), self.dtype, self.shape)
    }
}

#[derive(Debug)]
pub struct BurnpackError(pub String);
impl std::fmt::Display for BurnpackError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for BurnpackError {}

pub struct BurnpackWriter {
    snaps: Vec<TensorSnapshot>,
    meta: BTreeMap<String, String>,
}
const MAGIC: &[u8] = b"BPKS";
fn put(out: &mut Vec<u8>, b: &[u8]) {
    out.extend((b.len() as u64).to_le_bytes());
    out.extend(b);
}
impl BurnpackWriter {
    pub fn new(snaps: Vec<TensorSnapshot>) -> Self {
        BurnpackWriter { snaps, meta: BTreeMap::new() }
    }
    pub fn with_metadata(mut self, k: &str, v: &str) -> Self {
        self.meta.insert(k.into(), v.into());
        self
    }
    pub fn to_bytes(&self) -> Result<Vec<u8>, BurnpackError> {
        let mut out = MAGIC.to_vec();
        // How many tensors were handed over, repeated paths included: for the checks.
        let mut meta = self.meta.clone();
        meta.insert("stand-in:snapshots".into(), self.snaps.len().to_string());
        out.extend((meta.len() as u64).to_le_bytes());
        for (k, v) in &meta {
            put(&mut out, k.as_bytes());
            put(&mut out, v.as_bytes());
        }
        // Like burnpack, tensors are keyed by path: a repeated path is written once.
        let mut m: BTreeMap<String, &TensorSnapshot> = BTreeMap::new();
        for s in &self.snaps {
            m.insert(s.full_path(), s);
        }
        out.extend((m.len() as u64).to_le_bytes());
        for (k, s) in m {
            let d = s.to_data().map_err(|e| BurnpackError(e.to_string()))?;
            // The header comes from the snapshot's metadata, the payload from its data.
            let want = s.shape.iter().product::<usize>() * s.dtype.size();
            if d.bytes.len() != want {
                return Err(BurnpackError(format!("{k}: {} bytes of data, {want} expected", d.bytes.len())));
            }
            put(&mut out, k.as_bytes());
            put(&mut out, format!("{:?}", s.dtype).as_bytes());
            out.extend((s.shape.len() as u64).to_le_bytes());
            for x in &s.shape {
                out.extend((*x as u64).to_le_bytes());
            }
            put(&mut out, &d.bytes);
        }
        Ok(out)
    }
    pub fn write_to_file<P: AsRef<Path>>(&self, p: P) -> Result<(), BurnpackError> {
        let b = self.to_bytes()?;
        std::fs::write(p, b).map_err(|e| BurnpackError(e.to_string()))
    }
}
pub fn dtype_of(s: &str) -> DType {
    for d in [DType::F64, DType::F32, DType::F16, DType::BF16, DType::I64, DType::I32, DType::I16, DType::I8, DType::U64, DType::U32, DType::U16, DType::U8, DType::Bool] {
        if format!("{d:?}") == s {
            return d;
        }
    }
    panic!("unknown dtype {s}")
}
/// Reads the stand-in burnpack format: (metadata, tensors by path).
pub fn read_pack(b: &[u8]) -> Result<(BTreeMap<String, String>, BTreeMap<String, TensorData>), String> {
    struct R<'a>(&'a [u8]);
    impl<'a> R<'a> {
        fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
            if n > self.0.len() {
                return Err("truncated".into());
            }
            let (a, b) = self.0.split_at(n);
            self.0 = b;
            Ok(a)
        }
        fn u(&mut self) -> Result<usize, String> {
            Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()) as usize)
        }
        fn s(&mut self) -> Result<String, String> {
            let n = self.u()?;
            Ok(String::from_utf8_lossy(self.take(n)?).into_owned())
        }
    }
    let mut r = R(b);
    if r.take(4)? != MAGIC {
        return Err("bad magic".into());
    }
    let mut meta = BTreeMap::new();
    for _ in 0..r.u()? {
        let k = r.s()?;
        meta.insert(k, r.s()?);
    }
    let mut t = BTreeMap::new();
    for _ in 0..r.u()? {
        let k = r.s()?;
        let d = dtype_of(&r.s()?);
        let n = r.u()?;
        let mut shape = vec![];
        for _ in 0..n {
            shape.push(r.u()?);
        }
        let n = r.u()?;
        let bytes = r.take(n)?.to_vec();
        t.insert(k, TensorData::from_bytes_vec(bytes, shape, d));
    }
    Ok((meta, t))
}

pub struct BurnpackStore {
    src: Src,
}
enum Src {
    File(PathBuf),
    Bytes(Vec<u8>),
}
impl BurnpackStore {
    pub fn from_file<P: AsRef<Path>>(p: P) -> Self {
        BurnpackStore { src: Src::File(p.as_ref().to_path_buf()) }
    }
    pub fn from_static(b: &'static [u8]) -> Self {
        BurnpackStore { src: Src::Bytes(b.to_vec()) }
    }
    pub fn from_bytes(b: Option<Vec<u8>>) -> Self {
        BurnpackStore { src: Src::Bytes(b.unwrap_or_default()) }
    }
}
#[derive(Debug)]
pub struct ApplyResult {
    pub applied: Vec<String>,
    pub unused: Vec<String>,
}
struct Loader {
    path: Vec<String>,
    map: BTreeMap<String, TensorData>,
    used: Vec<String>,
    errors: Vec<String>,
}
impl ParamVisitor for Loader {
    fn enter(&mut self, name: &str, _c: &str) {
        self.path.push(name.to_string());
    }
    fn exit(&mut self) {
        self.path.pop();
    }
    fn param(&mut self, name: &str, shape: &[usize], kind: KindTag) -> Option<Nd> {
        let mut p = self.path.clone();
        p.push(name.to_string());
        let p = p.join(".");
        match self.map.get(&p) {
            None => {
                self.errors.push(format!("missing tensor {p}"));
                None
            }
            Some(d) => {
                self.used.push(p.clone());
                if d.shape != shape {
                    self.errors.push(format!("shape mismatch for {p}: file {:?}, model {shape:?}", d.shape));
                    return None;
                }
                if kind_of(d.dtype) != kind {
                    self.errors.push(format!("kind mismatch for {p}: file {:?}, model {kind:?}", d.dtype));
                    return None;
                }
                Some(Nd::from_data(d.clone()))
            }
        }
    }
}
pub trait ModuleSnapshot: ModuleField {
    fn load_from(&mut self, store: &mut BurnpackStore) -> Result<ApplyResult, BurnpackError> {
        let b = match &store.src {
            Src::File(p) => std::fs::read(p).map_err(|e| BurnpackError(format!("{}: {e}", p.display())))?,
            Src::Bytes(b) => b.clone(),
        };
        let (_, map) = read_pack(&b).map_err(BurnpackError)?;
        let all: Vec<String> = map.keys().cloned().collect();
        let mut l = Loader { path: vec![], map, used: vec![], errors: vec![] };
        self.visit_field("", &mut l);
        if !l.errors.is_empty() {
            return Err(BurnpackError(l.errors.join("; ")));
        }
        let unused = all.into_iter().filter(|k| !l.used.contains(k)).collect();
        Ok(ApplyResult { applied: l.used, unused })
    }
}
impl<M: Module> ModuleSnapshot for M {}
