//! Stand-in for the `rocksdb` crate (a C++ library): column families, atomic batches, a write-ahead log, and crashes.
//! Contents live in a process-wide registry by path, so a database can be "reopened" after a simulated crash.
//@ deps:
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;
use std::path::Path;
use std::sync::{Mutex, MutexGuard};

#[derive(Debug, Clone, PartialEq)]
pub struct Error { message: String }
impl Error { pub fn new(message: String) -> Error { Error { message } } pub fn into_string(self) -> String { self.message } }
impl AsRef<str> for Error { fn as_ref(&self) -> &str { &self.message } }
impl From<Error> for String { fn from(e: Error) -> String { e.into_string() } }
impl std::error::Error for Error { fn description(&self) -> &str { &self.message } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.message.fmt(f) } }
fn err<T>(m: &str) -> Result<T, Error> { Err(Error::new(m.to_owned())) }

type Rec = (usize, Vec<u8>, Vec<u8>);
#[derive(Default)]
struct Store { cfs: Vec<String>, cur: Vec<Rec>, durable: Vec<Rec>, open: bool }
#[derive(Default)]
struct World { stores: BTreeMap<String, Store>, fail_in: Option<u64>, read_fail_in: Option<u64>, glitch_in: Option<u64>, wglitch_in: Option<u64>, glitched: bool, down: bool, ops: u64, writes: u64 }
static mut WORLD: Option<Mutex<World>> = None;
static INIT: std::sync::Once = std::sync::Once::new();
fn world() -> MutexGuard<'static, World> { INIT.call_once(|| unsafe { WORLD = Some(Mutex::new(World::default())) }); unsafe { WORLD.as_ref().unwrap() }.lock().unwrap_or_else(|p| p.into_inner()) }
fn put(v: &mut Vec<Rec>, cf: usize, k: &[u8], val: &[u8]) { for r in v.iter_mut() { if r.0 == cf && r.1.len() == k.len() && r.1[..] == *k { r.2 = val.to_vec(); return; } } v.push((cf, k.to_vec(), val.to_vec())) }
fn del(v: &mut Vec<Rec>, cf: usize, k: &[u8]) { if let Some(i) = v.iter().position(|r| r.0 == cf && r.1.len() == k.len() && r.1[..] == *k) { v.remove(i); } }

/// The environment of the database, for the harnesses.
pub mod sim {
    /// the disk fails at the `n`-th write from now (0: the next) and stays failed: the process is about to crash
    pub fn fail_after(n: u64) { let mut w = super::world(); w.fail_in = Some(n); }
    /// the disk fails at the `n`-th read from now (0: the next) and stays failed
    pub fn fail_read_after(n: u64) { let mut w = super::world(); w.read_fail_in = Some(n); }
    /// only the `n`-th read from now fails
    pub fn glitch_read_after(n: u64) { let mut w = super::world(); w.glitch_in = Some(n); }
    /// only the `n`-th write from now fails
    pub fn glitch_write_after(n: u64) { let mut w = super::world(); w.wglitch_in = Some(n); }
    /// whether a read or write failed that was to fail alone, since last asked
    pub fn glitched() -> bool { std::mem::replace(&mut super::world().glitched, false) }
    /// how many writes (a batch counts once) have been applied
    pub fn writes() -> u64 { super::world().writes }
    pub fn is_down() -> bool { super::world().down }
    /// the process dies and is started again: what was not logged is gone
    pub fn restart() { let mut w = super::world(); w.down = false; w.fail_in = None; w.read_fail_in = None; w.glitch_in = None; w.wglitch_in = None; w.glitched = false; for (_, s) in w.stores.iter_mut() { s.cur = s.durable.clone(); s.open = false; } }
    /// raw contents of a column family ("default" when none was named)
    pub fn dump(path: &str, cf: &str) -> Vec<(Vec<u8>, Vec<u8>)> { let w = super::world(); match w.stores.get(path) { None => vec![], Some(s) => match s.cfs.iter().position(|c| c == cf) { None => vec![], Some(i) => s.cur.iter().filter(|r| r.0 == i).map(|r| (r.1.clone(), r.2.clone())).collect() } } }
}

#[derive(Default, Clone)]
pub struct Options { create: bool, create_cf: bool }
impl Options {
    pub fn create_if_missing(&mut self, b: bool) { self.create = b }
    pub fn create_missing_column_families(&mut self, b: bool) { self.create_cf = b }
    pub fn set_max_open_files(&mut self, _n: i32) {}
    pub fn set_use_fsync(&mut self, _b: bool) {}
    pub fn increase_parallelism(&mut self, _n: i32) {}
    pub fn set_keep_log_file_num(&mut self, _n: usize) {}
}
#[derive(Default)]
pub struct WriteOptions { no_wal: bool }
impl WriteOptions { pub fn new() -> Self { Self::default() } pub fn disable_wal(&mut self, b: bool) { self.no_wal = b } pub fn set_sync(&mut self, _b: bool) {} }
#[derive(Default)]
pub struct ReadOptions;
#[derive(Copy, Clone)]
pub struct ColumnFamily<'a> { ix: usize, db: PhantomData<&'a DB> }
#[derive(Debug)]
pub struct DBVector(Vec<u8>);
impl std::ops::Deref for DBVector { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for DBVector { fn as_ref(&self) -> &[u8] { &self.0 } }
impl DBVector { pub fn to_utf8(&self) -> Option<&str> { std::str::from_utf8(&self.0).ok() } }
enum Op { Put(usize, Vec<u8>, Vec<u8>), Del(usize, Vec<u8>) }
#[derive(Default)]
pub struct WriteBatch { ops: Vec<Op> }
impl WriteBatch {
    pub fn len(&self) -> usize { self.ops.len() }
    pub fn is_empty(&self) -> bool { self.ops.is_empty() }
    pub fn clear(&mut self) -> Result<(), Error> { self.ops.clear(); Ok(()) }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) -> Result<(), Error> { self.ops.push(Op::Put(0, k.as_ref().to_vec(), v.as_ref().to_vec())); Ok(()) }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, cf: ColumnFamily, k: K, v: V) -> Result<(), Error> { self.ops.push(Op::Put(cf.ix, k.as_ref().to_vec(), v.as_ref().to_vec())); Ok(()) }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) -> Result<(), Error> { self.ops.push(Op::Del(0, k.as_ref().to_vec())); Ok(()) }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: ColumnFamily, k: K) -> Result<(), Error> { self.ops.push(Op::Del(cf.ix, k.as_ref().to_vec())); Ok(()) }
}
pub struct DB { path: String }
impl fmt::Debug for DB { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "RocksDB {{ path: {:?} }}", self.path) } }
impl Drop for DB { fn drop(&mut self) { if let Some(s) = world().stores.get_mut(&self.path) { s.open = false; } } }
impl DB {
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<DB, Error> { let mut o = Options::default(); o.create_if_missing(true); DB::open(&o, path) }
    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<DB, Error> { DB::open_cf(opts, path, None::<&str>) }
    pub fn open_cf<P: AsRef<Path>, I: IntoIterator<Item = N>, N: AsRef<str>>(opts: &Options, path: P, cfs: I) -> Result<DB, Error> {
        let path = path.as_ref().to_str().unwrap().to_owned(); let mut names = vec!["default".to_owned()];
        for c in cfs { if !names.iter().any(|n| n == c.as_ref()) { names.push(c.as_ref().to_owned()) } }
        let mut w = world(); if w.down { return err("IO error"); }
        if !w.stores.contains_key(&path) { if !opts.create { return err("Invalid argument: does not exist (create_if_missing is false)"); } w.stores.insert(path.clone(), Store { cfs: vec!["default".to_owned()], ..Store::default() }); }
        let s = w.stores.get_mut(&path).unwrap();
        if s.open { return err("IO error: lock hold by current process"); }
        if s.cfs.iter().any(|c| !names.contains(c)) { return err("Invalid argument: You have to open all column families"); }
        for n in names { if !s.cfs.contains(&n) { if !opts.create_cf { return err("Invalid argument: Column family not found"); } s.cfs.push(n); } }
        s.open = true; Ok(DB { path })
    }
    pub fn cf_handle(&self, name: &str) -> Option<ColumnFamily> { world().stores[&self.path].cfs.iter().position(|c| c == name).map(|ix| ColumnFamily { ix, db: PhantomData }) }
    fn read(&self, cf: usize, k: &[u8]) -> Result<Option<DBVector>, Error> {
        let mut w = world();
        if let Some(n) = w.read_fail_in { if n == 0 { w.down = true; } w.read_fail_in = Some(n.saturating_sub(1)); }
        if let Some(n) = w.glitch_in { w.glitch_in = n.checked_sub(1); if n == 0 { w.glitched = true; return err("IO error"); } }
        if w.down { return err("IO error"); }
        for r in w.stores[&self.path].cur.iter() { if r.0 == cf && r.1.len() == k.len() && r.1[..] == *k { return Ok(Some(DBVector(r.2.clone()))); } }
        Ok(None)
    }
    fn apply(&self, b: WriteBatch, wal: bool) -> Result<(), Error> {
        let mut w = world();
        if let Some(n) = w.fail_in { if n == 0 { w.down = true; } w.fail_in = Some(n.saturating_sub(1)); }
        if let Some(n) = w.wglitch_in { w.wglitch_in = n.checked_sub(1); if n == 0 { w.glitched = true; return err("IO error"); } }
        if w.down { return err("IO error"); }
        w.writes += 1; let s = w.stores.get_mut(&self.path).unwrap();
        for o in b.ops { match o {
            Op::Put(cf, k, v) => { put(&mut s.cur, cf, &k, &v); if wal { put(&mut s.durable, cf, &k, &v); } }
            Op::Del(cf, k) => { del(&mut s.cur, cf, &k); if wal { del(&mut s.durable, cf, &k); } }
        } }
        Ok(())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBVector>, Error> { self.read(0, k.as_ref()) }
    pub fn get_opt<K: AsRef<[u8]>>(&self, k: K, _o: &ReadOptions) -> Result<Option<DBVector>, Error> { self.read(0, k.as_ref()) }
    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: ColumnFamily, k: K) -> Result<Option<DBVector>, Error> { self.read(cf.ix, k.as_ref()) }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> { self.put_opt(k, v, &WriteOptions::default()) }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V, o: &WriteOptions) -> Result<(), Error> { let mut b = WriteBatch::default(); b.put(k, v)?; self.apply(b, !o.no_wal) }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: ColumnFamily, k: K, v: V) -> Result<(), Error> { self.put_cf_opt(cf, k, v, &WriteOptions::default()) }
    pub fn put_cf_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: ColumnFamily, k: K, v: V, o: &WriteOptions) -> Result<(), Error> { let mut b = WriteBatch::default(); b.put_cf(cf, k, v)?; self.apply(b, !o.no_wal) }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> { let mut b = WriteBatch::default(); b.delete(k)?; self.apply(b, true) }
    pub fn delete_cf<K: AsRef<[u8]>>(&self, cf: ColumnFamily, k: K) -> Result<(), Error> { let mut b = WriteBatch::default(); b.delete_cf(cf, k)?; self.apply(b, true) }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> { self.apply(b, true) }
    pub fn write_opt(&self, b: WriteBatch, o: &WriteOptions) -> Result<(), Error> { self.apply(b, !o.no_wal) }
    pub fn write_without_wal(&self, b: WriteBatch) -> Result<(), Error> { self.apply(b, false) }
    pub fn flush(&self) -> Result<(), Error> { let mut w = world(); if w.down { return err("IO error"); } let s = w.stores.get_mut(&self.path).unwrap(); s.durable = s.cur.clone(); Ok(()) }
}
