//! A simulated networked/embedded key-value store: harness implementation of the
//! repository's own storage trait. A write that returned success is durable; clones
//! share the store. Every access passes the fault seam.
use oca_rs::data_storage::{DataStorage, Namespace};
use simcore::world::{rust_seam, Seam};
use std::collections::HashMap;

#[derive(Clone)]
pub struct SimKv {
    pub name: String,
}

impl SimKv {
    pub fn named(name: &str) -> Self {
        SimKv { name: name.into() }
    }
}

impl DataStorage for SimKv {
    fn get(&self, ns: Namespace, key: &str) -> Result<Option<Vec<u8>>, String> {
        let n = self.name.clone();
        rust_seam(Seam::KvGet, false, &n, &format!("{}:{key}", ns.as_str()), |w| {
            w.kv.get(&self.name)
                .and_then(|m| m.get(ns.as_str()))
                .and_then(|t| t.get(key.as_bytes()))
                .cloned()
        })
    }
    fn get_all(&self, ns: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
        let n = self.name.clone();
        rust_seam(Seam::KvGetAll, false, &n, ns.as_str(), |w| {
            w.kv.get(&self.name)
                .and_then(|m| m.get(ns.as_str()))
                .map(|t| {
                    t.iter()
                        .map(|(k, v)| (String::from_utf8(k.clone()).unwrap(), v.clone()))
                        .collect()
                })
                .unwrap_or_default()
        })
    }
    fn insert(&mut self, ns: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
        let n = self.name.clone();
        rust_seam(Seam::KvPut, true, &n, &format!("{}:{key}", ns.as_str()), |w| {
            w.kv.entry(self.name.clone())
                .or_default()
                .entry(ns.as_str().to_string())
                .or_default()
                .insert(key.as_bytes().to_vec(), value.to_vec());
        })
    }
    fn new() -> Self {
        SimKv { name: "kv".into() }
    }
    fn config(&self, _c: HashMap<String, String>) -> Self {
        self.clone()
    }
}

/// The same store behind the version-graph crate's own storage trait.
#[derive(Clone)]
pub struct DagKv;
impl oca_dag_semantics::data_storage::DataStorage for DagKv {
    fn open(_path: &str) -> Self {
        DagKv
    }
    fn get(&self, key: &str) -> Result<Option<Vec<u8>>, String> {
        rust_seam(Seam::KvGet, false, "dag", key, |w| {
            w.kv.get("dag").and_then(|m| m.get("")).and_then(|t| t.get(key.as_bytes())).cloned()
        })
    }
    fn insert(&self, key: &str, value: &[u8]) -> Result<(), String> {
        rust_seam(Seam::KvPut, true, "dag", key, |w| {
            w.kv.entry("dag".into())
                .or_default()
                .entry(String::new())
                .or_default()
                .insert(key.as_bytes().to_vec(), value.to_vec());
        })
    }
}
