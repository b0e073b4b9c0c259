//! Stand-in for sled 0.34.7 inside the simulator: same interface for what an embedder
//! uses, content in the simulated world, writes buffered until flushed, a crash keeps a
//! prefix of the buffered operations, a clean close of the last handle flushes.
use simcore::world::{apply_sled, rust_seam, with_world, Seam, SledOp};
use std::ops::{Bound, Deref, RangeBounds};
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct IVec(Arc<[u8]>);
impl Deref for IVec {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for IVec {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl std::borrow::Borrow<[u8]> for IVec {
    fn borrow(&self) -> &[u8] {
        &self.0
    }
}
impl From<&[u8]> for IVec {
    fn from(v: &[u8]) -> Self {
        IVec(v.into())
    }
}
impl From<Vec<u8>> for IVec {
    fn from(v: Vec<u8>) -> Self {
        IVec(v.into())
    }
}
impl From<Box<[u8]>> for IVec {
    fn from(v: Box<[u8]>) -> Self {
        IVec(v.into())
    }
}
impl From<&str> for IVec {
    fn from(v: &str) -> Self {
        IVec(v.as_bytes().into())
    }
}
impl From<String> for IVec {
    fn from(v: String) -> Self {
        IVec(v.into_bytes().into())
    }
}
impl From<&String> for IVec {
    fn from(v: &String) -> Self {
        IVec(v.as_bytes().into())
    }
}
impl From<&Vec<u8>> for IVec {
    fn from(v: &Vec<u8>) -> Self {
        IVec(v.as_slice().into())
    }
}
impl From<&IVec> for IVec {
    fn from(v: &IVec) -> Self {
        v.clone()
    }
}
impl<const N: usize> From<[u8; N]> for IVec {
    fn from(v: [u8; N]) -> Self {
        IVec(v.as_slice().into())
    }
}
impl<const N: usize> From<&[u8; N]> for IVec {
    fn from(v: &[u8; N]) -> Self {
        IVec(v.as_slice().into())
    }
}
impl PartialEq<[u8]> for IVec {
    fn eq(&self, o: &[u8]) -> bool {
        &*self.0 == o
    }
}
impl PartialEq<&[u8]> for IVec {
    fn eq(&self, o: &&[u8]) -> bool {
        &*self.0 == *o
    }
}
impl PartialEq<Vec<u8>> for IVec {
    fn eq(&self, o: &Vec<u8>) -> bool {
        &*self.0 == o.as_slice()
    }
}

#[derive(Debug)]
pub enum Error {
    CollectionNotFound(IVec),
    Unsupported(String),
    ReportableBug(String),
    Io(std::io::Error),
    Corruption { at: Option<u64>, bt: () },
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::CollectionNotFound(n) => write!(f, "Collection {:?} does not exist", n),
            Error::Unsupported(e) => write!(f, "Unsupported: {e}"),
            Error::ReportableBug(e) => write!(f, "Unexpected bug: {e}"),
            Error::Io(e) => write!(f, "IO error: {e}"),
            Error::Corruption { .. } => write!(f, "Read corrupted data"),
        }
    }
}
impl std::error::Error for Error {}
impl Clone for Error {
    fn clone(&self) -> Self {
        Error::Io(std::io::Error::new(std::io::ErrorKind::Other, self.to_string()))
    }
}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error::Io(e)
    }
}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e.to_string())
    }
}
pub type Result<T> = std::result::Result<T, Error>;
fn io(e: String) -> Error {
    Error::Io(std::io::Error::new(std::io::ErrorKind::Other, e))
}

#[derive(Clone, Debug, Default)]
pub struct Config {
    path: PathBuf,
    temporary: bool,
}
#[derive(Clone, Copy, Debug)]
pub enum Mode {
    LowSpace,
    HighThroughput,
}
impl Config {
    pub fn new() -> Self {
        Config {
            path: "default.sled".into(),
            temporary: false,
        }
    }
    pub fn path<P: AsRef<Path>>(mut self, p: P) -> Self {
        self.path = p.as_ref().to_path_buf();
        self
    }
    pub fn get_path(&self) -> PathBuf {
        self.path.clone()
    }
    pub fn temporary(mut self, t: bool) -> Self {
        self.temporary = t;
        self
    }
    pub fn cache_capacity(self, _: u64) -> Self {
        self
    }
    pub fn mode(self, _: Mode) -> Self {
        self
    }
    pub fn flush_every_ms(self, _: Option<u64>) -> Self {
        self
    }
    pub fn use_compression(self, _: bool) -> Self {
        self
    }
    pub fn compression_factor(self, _: i32) -> Self {
        self
    }
    pub fn segment_size(self, _: usize) -> Self {
        self
    }
    pub fn create_new(self, _: bool) -> Self {
        self
    }
    pub fn print_profile_on_drop(self, _: bool) -> Self {
        self
    }
    pub fn snapshot_after_ops(self, _: u64) -> Self {
        self
    }
    pub fn idgen_persist_interval(self, _: u64) -> Self {
        self
    }
    pub fn open(&self) -> Result<Db> {
        let path = self.path.to_string_lossy().to_string();
        let class = class_of(&path);
        let gen = rust_seam(Seam::SledOpen, false, &class, "open", |w| {
            let gen = w.generation;
            let d = w.sled.entry(path.clone()).or_default();
            if d.open > 0 {
                return Err(io("could not acquire lock on database".into()));
            }
            d.open += 1;
            d.cur.entry(DEFAULT_TREE.to_vec()).or_default();
            d.dur.entry(DEFAULT_TREE.to_vec()).or_default();
            Ok(gen)
        })
        .map_err(io)??;
        let handle = Arc::new(Handle {
            path: path.clone(),
            class: class.clone(),
            gen,
            temporary: self.temporary,
        });
        Ok(Db {
            default: Tree {
                handle,
                name: IVec::from(DEFAULT_TREE),
            },
        })
    }
}

const DEFAULT_TREE: &[u8] = b"__sled__default";

fn class_of(path: &str) -> String {
    path.rsplit('/').next().unwrap_or("sled").to_string()
}

pub fn open<P: AsRef<Path>>(path: P) -> Result<Db> {
    Config::new().path(path).open()
}

#[derive(Debug)]
struct Handle {
    path: String,
    class: String,
    gen: u64,
    temporary: bool,
}
impl Drop for Handle {
    fn drop(&mut self) {
        if !simcore::world_active() {
            return;
        }
        with_world(|w| {
            if w.generation != self.gen {
                return;
            }
            let frozen = w.frozen;
            if let Some(d) = w.sled.get_mut(&self.path) {
                d.open = d.open.saturating_sub(1);
                if !frozen {
                    // A clean close flushes.
                    for op in std::mem::take(&mut d.pend) {
                        apply_sled(&mut d.dur, op);
                    }
                    if self.temporary {
                        d.dur.clear();
                        d.cur.clear();
                    }
                }
            }
        })
    }
}

#[derive(Clone, Debug)]
pub struct Db {
    default: Tree,
}
impl Deref for Db {
    type Target = Tree;
    fn deref(&self) -> &Tree {
        &self.default
    }
}
impl Db {
    pub fn open_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<Tree> {
        let name = name.as_ref().to_vec();
        let h = &self.default.handle;
        let exists = with_world(|w| {
            w.sled
                .get(&h.path)
                .map(|d| d.cur.contains_key(&name))
                .unwrap_or(false)
        });
        if !exists {
            let n = name.clone();
            let path = h.path.clone();
            rust_seam(Seam::SledPut, true, &h.class, "open_tree", move |w| {
                let d = w.sled.entry(path).or_default();
                d.cur.entry(n.clone()).or_default();
                d.pend.push(SledOp::Tree(n));
            })
            .map_err(io)?;
        }
        Ok(Tree {
            handle: h.clone(),
            name: name.into(),
        })
    }
    pub fn drop_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<bool> {
        let name = name.as_ref().to_vec();
        let h = &self.default.handle;
        let path = h.path.clone();
        rust_seam(Seam::SledPut, true, &h.class, "drop_tree", move |w| {
            let d = w.sled.entry(path).or_default();
            let had = d.cur.remove(&name).is_some();
            d.pend.push(SledOp::DropTree(name));
            had
        })
        .map_err(io)
    }
    pub fn tree_names(&self) -> Vec<IVec> {
        let path = self.default.handle.path.clone();
        with_world(|w| w.sled[&path].cur.keys().map(|k| k.clone().into()).collect())
    }
    pub fn was_recovered(&self) -> bool {
        true
    }
    pub fn generate_id(&self) -> Result<u64> {
        let path = self.default.handle.path.clone();
        Ok(with_world(|w| {
            let d = w.sled.get_mut(&path).unwrap();
            d.next_id += 1;
            d.next_id
        }))
    }
    pub fn size_on_disk(&self) -> Result<u64> {
        Ok(0)
    }
    pub fn checksum(&self) -> Result<u32> {
        Ok(0)
    }
}

#[derive(Clone, Debug)]
pub struct Tree {
    handle: Arc<Handle>,
    name: IVec,
}

pub type CompareAndSwapResult = Result<std::result::Result<(), CompareAndSwapError>>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CompareAndSwapError {
    pub current: Option<IVec>,
    pub proposed: Option<IVec>,
}

impl Tree {
    fn stale(&self) -> bool {
        with_world(|w| w.generation != self.handle.gen)
    }
    fn write<R>(
        &self,
        detail: &str,
        f: impl FnOnce(&mut std::collections::BTreeMap<Vec<u8>, Vec<u8>>) -> (R, Vec<SledOp>),
    ) -> Result<R> {
        if self.stale() {
            return Err(io("handle of a dead process".into()));
        }
        let path = self.handle.path.clone();
        let name = self.name.to_vec();
        rust_seam(Seam::SledPut, true, &self.handle.class, detail, move |w| {
            let d = w.sled.entry(path).or_default();
            let (r, ops) = f(d.cur.entry(name).or_default());
            d.pend.extend(ops);
            r
        })
        .map_err(io)
    }
    fn read<R>(
        &self,
        seam: Seam,
        detail: &str,
        f: impl FnOnce(&std::collections::BTreeMap<Vec<u8>, Vec<u8>>) -> R,
    ) -> Result<R> {
        if self.stale() {
            return Err(io("handle of a dead process".into()));
        }
        let path = self.handle.path.clone();
        let name = self.name.to_vec();
        rust_seam(seam, false, &self.handle.class, detail, move |w| {
            let d = w.sled.entry(path).or_default();
            f(d.cur.entry(name).or_default())
        })
        .map_err(io)
    }
    fn det(&self, op: &str, key: &[u8]) -> String {
        format!("{op} {}/{}", String::from_utf8_lossy(&self.name), String::from_utf8_lossy(key))
    }
    pub fn name(&self) -> IVec {
        self.name.clone()
    }
    pub fn insert<K: AsRef<[u8]>, V: Into<IVec>>(&self, key: K, value: V) -> Result<Option<IVec>> {
        let k = key.as_ref().to_vec();
        let v = value.into().to_vec();
        let t = self.name.to_vec();
        self.write(&self.det("insert", &k), move |m| {
            let old = m.insert(k.clone(), v.clone()).map(IVec::from);
            (old, vec![SledOp::Put(t, k, v)])
        })
    }
    pub fn remove<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<IVec>> {
        let k = key.as_ref().to_vec();
        let t = self.name.to_vec();
        self.write(&self.det("remove", &k), move |m| {
            let old = m.remove(&k).map(IVec::from);
            (old, vec![SledOp::Del(t, k)])
        })
    }
    pub fn apply_batch(&self, batch: Batch) -> Result<()> {
        let t = self.name.to_vec();
        self.write("batch", move |m| {
            let mut ops = vec![];
            for (k, v) in batch.0 {
                match v {
                    Some(v) => {
                        m.insert(k.to_vec(), v.to_vec());
                        ops.push(SledOp::Put(t.clone(), k.to_vec(), v.to_vec()));
                    }
                    None => {
                        m.remove(&*k);
                        ops.push(SledOp::Del(t.clone(), k.to_vec()));
                    }
                }
            }
            ((), vec![SledOp::Batch(ops)])
        })
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<IVec>> {
        let k = key.as_ref().to_vec();
        self.read(Seam::SledGet, &self.det("get", &k), |m| {
            m.get(&k).cloned().map(IVec::from)
        })
    }
    pub fn contains_key<K: AsRef<[u8]>>(&self, key: K) -> Result<bool> {
        Ok(self.get(key)?.is_some())
    }
    pub fn get_lt<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<(IVec, IVec)>> {
        let k = key.as_ref().to_vec();
        self.read(Seam::SledGet, "get_lt", |m| {
            m.range(..k).next_back().map(|(k, v)| (k.clone().into(), v.clone().into()))
        })
    }
    pub fn get_gt<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<(IVec, IVec)>> {
        let k = key.as_ref().to_vec();
        self.read(Seam::SledGet, "get_gt", |m| {
            m.range((Bound::Excluded(k), Bound::Unbounded))
                .next()
                .map(|(k, v)| (k.clone().into(), v.clone().into()))
        })
    }
    pub fn first(&self) -> Result<Option<(IVec, IVec)>> {
        self.iter().next().transpose()
    }
    pub fn last(&self) -> Result<Option<(IVec, IVec)>> {
        self.iter().next_back().transpose()
    }
    pub fn pop_min(&self) -> Result<Option<(IVec, IVec)>> {
        match self.first()? {
            Some((k, v)) => {
                self.remove(&k)?;
                Ok(Some((k, v)))
            }
            None => Ok(None),
        }
    }
    pub fn pop_max(&self) -> Result<Option<(IVec, IVec)>> {
        match self.last()? {
            Some((k, v)) => {
                self.remove(&k)?;
                Ok(Some((k, v)))
            }
            None => Ok(None),
        }
    }
    pub fn compare_and_swap<K, OV, NV>(&self, key: K, old: Option<OV>, new: Option<NV>) -> CompareAndSwapResult
    where
        K: AsRef<[u8]>,
        OV: AsRef<[u8]>,
        NV: Into<IVec>,
    {
        let k = key.as_ref().to_vec();
        let old = old.map(|o| o.as_ref().to_vec());
        let new: Option<IVec> = new.map(|n| n.into());
        let t = self.name.to_vec();
        self.write(&self.det("cas", &k), move |m| {
            let cur = m.get(&k).cloned();
            if cur != old {
                return (
                    Err(CompareAndSwapError {
                        current: cur.map(IVec::from),
                        proposed: new,
                    }),
                    vec![],
                );
            }
            match new {
                Some(n) => {
                    m.insert(k.clone(), n.to_vec());
                    (Ok(()), vec![SledOp::Put(t, k, n.to_vec())])
                }
                None => {
                    m.remove(&k);
                    (Ok(()), vec![SledOp::Del(t, k)])
                }
            }
        })
    }
    fn update<K, V, F>(&self, key: K, mut f: F) -> Result<(Option<IVec>, Option<IVec>)>
    where
        K: AsRef<[u8]>,
        F: FnMut(Option<&[u8]>) -> Option<V>,
        V: Into<IVec>,
    {
        let k = key.as_ref().to_vec();
        let t = self.name.to_vec();
        self.write(&self.det("update", &k), move |m| {
            let old = m.get(&k).cloned();
            let new: Option<IVec> = f(old.as_deref()).map(|v| v.into());
            let ops = match &new {
                Some(n) => {
                    m.insert(k.clone(), n.to_vec());
                    vec![SledOp::Put(t, k, n.to_vec())]
                }
                None => {
                    m.remove(&k);
                    vec![SledOp::Del(t, k)]
                }
            };
            ((old.map(IVec::from), new), ops)
        })
    }
    pub fn update_and_fetch<K, V, F>(&self, key: K, f: F) -> Result<Option<IVec>>
    where
        K: AsRef<[u8]>,
        F: FnMut(Option<&[u8]>) -> Option<V>,
        V: Into<IVec>,
    {
        Ok(self.update(key, f)?.1)
    }
    pub fn fetch_and_update<K, V, F>(&self, key: K, f: F) -> Result<Option<IVec>>
    where
        K: AsRef<[u8]>,
        F: FnMut(Option<&[u8]>) -> Option<V>,
        V: Into<IVec>,
    {
        Ok(self.update(key, f)?.0)
    }
    pub fn len(&self) -> usize {
        self.read(Seam::SledGet, "len", |m| m.len()).unwrap_or(0)
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&self) -> Result<()> {
        for kv in self.iter() {
            let (k, _) = kv?;
            self.remove(k)?;
        }
        Ok(())
    }
    pub fn iter(&self) -> Iter {
        self.range::<Vec<u8>, _>(..)
    }
    pub fn range<K: AsRef<[u8]>, R: RangeBounds<K>>(&self, r: R) -> Iter {
        let conv = |b: Bound<&K>| match b {
            Bound::Included(k) => Bound::Included(k.as_ref().to_vec()),
            Bound::Excluded(k) => Bound::Excluded(k.as_ref().to_vec()),
            Bound::Unbounded => Bound::Unbounded,
        };
        Iter {
            tree: self.clone(),
            lo: conv(r.start_bound()),
            hi: conv(r.end_bound()),
            prefix: None,
            done: false,
        }
    }
    pub fn scan_prefix<P: AsRef<[u8]>>(&self, p: P) -> Iter {
        let p = p.as_ref().to_vec();
        Iter {
            tree: self.clone(),
            lo: Bound::Included(p.clone()),
            hi: Bound::Unbounded,
            prefix: Some(p),
            done: false,
        }
    }
    pub fn flush(&self) -> Result<usize> {
        if self.stale() {
            return Err(io("handle of a dead process".into()));
        }
        let path = self.handle.path.clone();
        rust_seam(Seam::SledFlush, true, &self.handle.class, "flush", move |w| {
            let d = w.sled.entry(path).or_default();
            let n = d.pend.len();
            for op in std::mem::take(&mut d.pend) {
                apply_sled(&mut d.dur, op);
            }
            n
        })
        .map_err(io)
    }
    pub async fn flush_async(&self) -> Result<usize> {
        self.flush()
    }
    /// Transactions: the closure runs once on a buffered view and commits atomically.
    pub fn transaction<F, A, E>(&self, f: F) -> transaction::TransactionResult<A, E>
    where
        F: Fn(&transaction::TransactionalTree) -> transaction::ConflictableTransactionResult<A, E>,
    {
        use transaction::*;
        let t = TransactionalTree {
            tree: self.clone(),
            writes: std::cell::RefCell::new(vec![]),
            flush: std::cell::Cell::new(false),
        };
        match f(&t) {
            Ok(a) => {
                let mut b = Batch::default();
                b.0 = t.writes.into_inner();
                self.apply_batch(b).map_err(TransactionError::Storage)?;
                if t.flush.get() {
                    self.flush().map_err(TransactionError::Storage)?;
                }
                Ok(a)
            }
            Err(ConflictableTransactionError::Abort(e)) => Err(TransactionError::Abort(e)),
            Err(ConflictableTransactionError::Storage(e)) => Err(TransactionError::Storage(e)),
            Err(ConflictableTransactionError::Conflict) => {
                Err(TransactionError::Storage(io("conflict".into())))
            }
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Batch(pub(crate) Vec<(IVec, Option<IVec>)>);
impl Batch {
    pub fn insert<K: Into<IVec>, V: Into<IVec>>(&mut self, k: K, v: V) {
        self.0.push((k.into(), Some(v.into())));
    }
    pub fn remove<K: Into<IVec>>(&mut self, k: K) {
        self.0.push((k.into(), None));
    }
}

pub struct Iter {
    tree: Tree,
    lo: Bound<Vec<u8>>,
    hi: Bound<Vec<u8>>,
    prefix: Option<Vec<u8>>,
    done: bool,
}
impl Iter {
    pub fn keys(self) -> impl DoubleEndedIterator<Item = Result<IVec>> {
        self.map(|r| r.map(|(k, _)| k))
    }
    pub fn values(self) -> impl DoubleEndedIterator<Item = Result<IVec>> {
        self.map(|r| r.map(|(_, v)| v))
    }
    fn step(&mut self, back: bool) -> Option<Result<(IVec, IVec)>> {
        if self.done {
            return None;
        }
        let empty = match (&self.lo, &self.hi) {
            (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) => {
                a > b || (a == b && !matches!((&self.lo, &self.hi), (Bound::Included(_), Bound::Included(_))))
            }
            _ => false,
        };
        if empty {
            return None;
        }
        let (lo, hi, prefix) = (self.lo.clone(), self.hi.clone(), self.prefix.clone());
        let r = self.tree.read(Seam::SledIter, "next", move |m| {
            let pick = |(k, v): (&Vec<u8>, &Vec<u8>)| (k.clone(), v.clone());
            let mut it = m.range((lo, hi)).filter(|(k, _)| match &prefix {
                Some(p) => k.starts_with(p),
                None => true,
            });
            if back {
                it.next_back().map(pick)
            } else {
                it.next().map(pick)
            }
        });
        match r {
            Ok(Some((k, v))) => {
                if back {
                    self.hi = Bound::Excluded(k.clone());
                } else {
                    self.lo = Bound::Excluded(k.clone());
                }
                Some(Ok((k.into(), v.into())))
            }
            Ok(None) => {
                self.done = true;
                None
            }
            Err(e) => Some(Err(e)),
        }
    }
}
impl Iterator for Iter {
    type Item = Result<(IVec, IVec)>;
    fn next(&mut self) -> Option<Self::Item> {
        self.step(false)
    }
}
impl DoubleEndedIterator for Iter {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.step(true)
    }
}

pub mod transaction {
    use super::*;
    pub struct TransactionalTree {
        pub(crate) tree: Tree,
        pub(crate) writes: std::cell::RefCell<Vec<(IVec, Option<IVec>)>>,
        pub(crate) flush: std::cell::Cell<bool>,
    }
    #[derive(Debug, Clone)]
    pub enum ConflictableTransactionError<T = Error> {
        Abort(T),
        Conflict,
        Storage(Error),
    }
    #[derive(Debug, Clone)]
    pub enum TransactionError<T = Error> {
        Abort(T),
        Storage(Error),
    }
    impl<T: std::fmt::Display> std::fmt::Display for TransactionError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self {
                TransactionError::Abort(e) => write!(f, "{e}"),
                TransactionError::Storage(e) => write!(f, "{e}"),
            }
        }
    }
    pub type UnabortableTransactionError = Error;
    pub type ConflictableTransactionResult<T, E = ()> =
        std::result::Result<T, ConflictableTransactionError<E>>;
    pub type TransactionResult<T, E = ()> = std::result::Result<T, TransactionError<E>>;
    pub fn abort<A, T>(t: T) -> ConflictableTransactionResult<A, T> {
        Err(ConflictableTransactionError::Abort(t))
    }
    impl<E> From<Error> for ConflictableTransactionError<E> {
        fn from(e: Error) -> Self {
            ConflictableTransactionError::Storage(e)
        }
    }
    impl TransactionalTree {
        pub fn insert<K: AsRef<[u8]> + Into<IVec>, V: Into<IVec>>(
            &self,
            k: K,
            v: V,
        ) -> std::result::Result<Option<IVec>, UnabortableTransactionError> {
            let old = self.get(k.as_ref())?;
            self.writes.borrow_mut().push((k.into(), Some(v.into())));
            Ok(old)
        }
        pub fn remove<K: AsRef<[u8]> + Into<IVec>>(
            &self,
            k: K,
        ) -> std::result::Result<Option<IVec>, UnabortableTransactionError> {
            let old = self.get(k.as_ref())?;
            self.writes.borrow_mut().push((k.into(), None));
            Ok(old)
        }
        pub fn get<K: AsRef<[u8]>>(
            &self,
            k: K,
        ) -> std::result::Result<Option<IVec>, UnabortableTransactionError> {
            if let Some((_, v)) = self
                .writes
                .borrow()
                .iter()
                .rev()
                .find(|(wk, _)| &**wk == k.as_ref())
            {
                return Ok(v.clone());
            }
            self.tree.get(k)
        }
        pub fn flush(&self) {
            self.flush.set(true);
        }
    }
}
