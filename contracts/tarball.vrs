// Unit: checked delivery and contained extraction of package contents (nassun tarball.rs, package.rs)
use vstd::prelude::*;
verus! {
//@include strings.vrs
//@include case.vrs
//@include path.vrs
//@include iter.vrs
//@include hashmap.vrs
//@include std.vrs

// ---- assumed contracts: ssri ------------------------------
#[verifier::external_body]
pub struct SsriError { _p: () }
#[verifier::external_body]
pub struct Integrity { _p: () }
/// these bytes hash to it
pub uninterp spec fn matches(i: Integrity, bytes: Seq<u8>) -> bool;
impl Clone for Integrity {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl VxDisp for Integrity { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
impl Integrity {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.disp() { unimplemented!() }
}
pub enum Algorithm { Sha512, Sha384, Sha256, Sha1, Xxh3 }
pub mod ssri { pub use super::Algorithm; }
#[verifier::external_body]
pub struct IntegrityChecker { _p: () }
impl IntegrityChecker {
    pub uninterp spec fn sri(&self) -> Integrity;
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(i: Integrity) -> (r: Self) ensures r.sri() == i, r.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn input(&mut self, b: &[u8]) ensures final(self).sri() == old(self).sri(), final(self).fed() == old(self).fed() + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn result(self) -> (r: Result<Algorithm, SsriError>) ensures r is Ok <==> matches(self.sri(), self.fed()) { unimplemented!() }
}
#[verifier::external_body]
pub struct IntegrityOpts { _p: () }
impl IntegrityOpts {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn algorithm(self, a: Algorithm) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn result(self) -> Integrity { unimplemented!() }
}

// ---- assumed contracts: io ------------------------------
#[verifier::external_body]
pub struct IoError { _p: () }
pub mod std_io { pub enum ErrorKind { InvalidData, NotFound } }
impl IoError {
    #[verifier::external_body]
    pub fn new(k: std_io::ErrorKind, s: &str) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct Context { _p: () }
pub enum Poll<T> { Ready(T), Pending }
/// the bytes a package is fetched as
#[verifier::external_body]
pub struct TarballStream { _p: () }
impl TarballStream {
    /// what has been read from it so far
    pub uninterp spec fn got(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<Result<usize, IoError>>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r matches Poll::Ready(Ok(n)) ==> n <= final(buf)@.len() && final(self).got() == old(self).got() + final(buf)@.take(n as int),
            !(r matches Poll::Ready(Ok(n))) ==> final(self).got() == old(self).got(),
    { unimplemented!() }
}
pub fn vx_ready_q<T>(p: Poll<Result<T, IoError>>) -> (r: Result<T, Poll<Result<T, IoError>>>)
    ensures p matches Poll::Ready(Ok(t)) ==> r == Ok::<T, Poll<Result<T, IoError>>>(t), !(p matches Poll::Ready(Ok(t))) ==> r is Err && r->Err_0 == p
{ match p { Poll::Ready(Ok(t)) => Ok(t), x => Err(x) } }
pub fn vx_slice<'a>(b: &'a [u8], n: usize) -> (r: &'a [u8])
    requires n <= b@.len()
    ensures r@ == b@.take(n as int)
{ let r = vstd::slice::slice_subrange(b, 0, n); assert(r@ =~= b@.take(n as int)); r }
/// async-std's BufReader over a Tarball: hands on what poll_read returned, in order, and 0 only after poll_read returned 0
#[verifier::external_body]
pub struct BufReader { _p: () }
impl BufReader {
    pub uninterp spec fn sri(&self) -> Option<Integrity>;
    pub uninterp spec fn out(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(t: Tarball) -> (r: Self)
        requires t.wf(), t.reader.got().len() == 0
        ensures r.sri() == t.checks(), r.out() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures
            final(self).sri() == old(self).sri(), final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> r->Ok_0 <= final(buf)@.len() && final(self).out() == old(self).out() + final(buf)@.take(r->Ok_0 as int),
            r == Ok::<usize, IoError>(0) && old(buf)@.len() > 0 ==> delivered(old(self).sri(), old(self).out()),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct NamedTempFile { _p: () }
pub mod tempfile { pub use super::NamedTempFile; }
impl NamedTempFile {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Result<Self, IoError>) ensures r is Ok ==> r->Ok_0.bytes() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoError>) ensures r is Ok ==> final(self).bytes() == old(self).bytes() + b@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Cursor<T> { _p: std::marker::PhantomData<T> }
impl Cursor<Vec<u8>> {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(v: Vec<u8>) -> (r: Self) ensures r.bytes() == v@ { unimplemented!() }
}
#[verifier::external_body]
pub struct CacacheError { _p: () }
#[verifier::external_body]
pub struct NassunError { _p: () }
#[allow(non_snake_case)]
impl NassunError {
    #[verifier::external_body]
    pub fn ExtractIoError(e: IoError, p: Option<PathBuf>, s: String) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn ExtractCacheError(e: CacacheError, p: Option<PathBuf>) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn SerializeCacheError(s: String) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn CacheMissingIndexError(s: String) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn DeserializeCacheError(s: String) -> Self { unimplemented!() }
}
impl From<SsriError> for NassunError {
    #[verifier::external_body]
    fn from(e: SsriError) -> Self { unimplemented!() }
}
pub trait VxInto<T>: Sized { fn vx_into(self) -> T; }
impl VxInto<String> for &str {
    #[verifier::external_body]
    fn vx_into(self) -> String { unimplemented!() }
}
impl VxInto<PathBuf> for &Path {
    #[verifier::external_body]
    fn vx_into(self) -> PathBuf { unimplemented!() }
}
//@method into => vx_into
pub trait IoContext<T>: Sized {
    spec fn val(self) -> Option<T>;
    fn io_context<F>(self, f: F) -> (r: Result<T, NassunError>)
        ensures r is Ok ==> self.val() == Some(r->Ok_0), r is Err ==> self.val() is None;
}
impl<T> IoContext<T> for Result<T, IoError> {
    open spec fn val(self) -> Option<T> { match self { Ok(t) => Some(t), Err(_) => None } }
    #[verifier::external_body]
    fn io_context<F>(self, f: F) -> (r: Result<T, NassunError>) { unimplemented!() }
}

// async-compression, async-tar: they read what they are made from, and nothing else
#[verifier::external_body]
pub struct GzipDecoder { _p: () }
impl GzipDecoder {
    pub uninterp spec fn sri(&self) -> Option<Integrity>;
    #[verifier::external_body]
    pub fn new(b: BufReader) -> (r: Self) ensures r.sri() == b.sri() { unimplemented!() }
}
#[verifier::external_body]
pub struct Archive { _p: () }
#[verifier::external_body]
pub struct EntriesStream { _p: () }
impl Clone for Archive {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Archive {
    pub uninterp spec fn sri(&self) -> Option<Integrity>;
    #[verifier::external_body]
    pub fn new(d: GzipDecoder) -> (r: Self) ensures r.sri() == d.sri() { unimplemented!() }
    #[verifier::external_body]
    pub fn entries(self) -> (r: Result<EntriesStream, IoError>) ensures r is Ok ==> r->Ok_0.sri() == self.sri() { unimplemented!() }
}
impl EntriesStream {
    pub uninterp spec fn sri(&self) -> Option<Integrity>;
    /// (the closure wraps each entry, or its error: not extracted)
    #[verifier::external_body]
    pub fn vx_map(self) -> (r: Self) ensures r.sri() == self.sri() { unimplemented!() }
}

// ---- what may be written: capabilities, granted by a caller for its destination only ------------------------------
pub uninterp spec fn may_write(p: Seq<Component>) -> bool;
pub uninterp spec fn may_mkdir(p: Seq<Component>) -> bool;
/// the right to fill `d`: files at or below it, and the directories that lead there
pub open spec fn may_fill(d: Seq<Component>) -> bool {
    &&& forall|p: Seq<Component>| inside(d, p) ==> #[trigger] may_write(p)
    &&& forall|p: Seq<Component>| inside(d, p) || is_ancestor(p, d) ==> #[trigger] may_mkdir(p)
}
#[verifier::external_body]
pub struct Permissions { _p: () }
#[verifier::external_body]
pub struct Metadata { _p: () }
impl Metadata {
    #[verifier::external_body]
    pub fn permissions(&self) -> Permissions { unimplemented!() }
}
impl Permissions {
    #[verifier::external_body]
    pub fn mode(&self) -> u32 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_mode(m: u32) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct OpenOptions { _p: () }
#[verifier::external_body]
pub struct File { _p: () }
#[verifier::external_body]
pub struct BufWriter { _p: () }
impl BufWriter {
    #[verifier::external_body]
    pub fn new(f: File) -> Self { unimplemented!() }
}
impl OpenOptions {
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, b: bool) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_new(&mut self, b: bool) -> (r: &mut Self) ensures r.fresh() == b, *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn mode(&mut self, m: u32) -> (r: &mut Self) ensures r.fresh() == old(self).fresh(), *final(self) == *final(r) { unimplemented!() }
    /// a link that is there already is not followed
    #[verifier::external_body]
    pub fn open(&mut self, p: &Path) -> Result<File, IoError>
        requires may_write(p.c()), old(self).fresh()
    { unimplemented!() }
}
pub mod fs {
    use super::*;
    #[verifier::external_body]
    pub fn create_dir(p: &Path) -> Result<(), IoError> requires may_mkdir(p.c()) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir_all(p: &Path) -> Result<(), IoError>
        requires forall|a: Seq<Component>| is_ancestor(a, p.c()) ==> #[trigger] may_mkdir(a) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file(p: &Path) -> Result<(), IoError> requires may_write(p.c()) { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(p: &Path) -> Result<Metadata, IoError> { unimplemented!() }
    #[verifier::external_body]
    pub fn set_permissions(p: &Path, m: Permissions) -> Result<(), IoError> requires may_write(p.c()) { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn exists(&self) -> bool { unimplemented!() }
    /// all prefixes, longest first
    #[verifier::external_body]
    pub fn ancestors(&self) -> (r: Iter<&Path>)
        ensures r.pos() == 0, forall|i: int| 0 <= i < r.all().len() ==> is_ancestor((#[trigger] r.all()[i]).c(), self.c()) { unimplemented!() }
}
// cacache: content is found by its hash and checked while it is copied out
pub mod cacache {
    use super::*;
    pub use super::Algorithm;
    pub type Error = CacacheError;
    #[verifier::external_body]
    pub fn copy_hash_sync(c: &Path, s: &Integrity, to: &Path) -> Result<u64, CacacheError> requires may_write(to.c()) { unimplemented!() }
    #[verifier::external_body]
    pub fn reflink_hash_sync(c: &Path, s: &Integrity, to: &Path) -> Result<(), CacacheError> requires may_write(to.c()) { unimplemented!() }
    #[verifier::external_body]
    pub fn hard_link_hash_sync(c: &Path, s: &Integrity, to: &Path) -> Result<(), CacacheError> requires may_write(to.c()) { unimplemented!() }
    #[verifier::external_body]
    pub struct Metadata { _p: () }
    impl Metadata { pub uninterp spec fn key(&self) -> Seq<char>; }
    pub mod index {
        use super::super::*;
        #[verifier::external_body]
        pub fn insert(c: &Path, k: &String, o: WriteOpts) -> Result<Integrity, CacacheError> { unimplemented!() }
        #[verifier::external_body]
        pub fn find(c: &Path, k: &String) -> (r: Result<Option<super::Metadata>, CacacheError>)
            ensures r is Ok && r->Ok_0 is Some ==> r->Ok_0->0.key() == k@ { unimplemented!() }
    }
}
#[verifier::external_body]
pub struct WriteOpts { _p: () }
#[verifier::external_body]
pub struct SyncWriter { _p: () }
impl WriteOpts {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn algorithm(self, a: Algorithm) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn integrity(self, a: Integrity) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_metadata(self, v: Vec<u8>) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn open_hash_sync(self, cache: &Path) -> Result<SyncWriter, CacacheError> { unimplemented!() }
}
impl SyncWriter {
    #[verifier::external_body]
    pub fn commit(self) -> Result<Integrity, CacacheError> { unimplemented!() }
}
// tar, flate2, io_tee
#[verifier::external_body]
pub struct StdBufReader { _p: () }
impl StdBufReader {
    #[verifier::external_body]
    pub fn new<T>(t: T) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct TeeReader { _p: () }
pub mod io_tee { pub use super::TeeReader; }
impl TeeReader {
    #[verifier::external_body]
    pub fn new(r: &mut StdBufReader, w: &mut IntegrityOpts) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, b: &mut [u8]) -> Result<usize, IoError> { unimplemented!() }
}
pub mod flate2 { pub mod read { #[allow(unused_imports)] use super::super::*;
    #[verifier::external_body]
    pub struct GzDecoder { _p: () }
    impl GzDecoder {
        #[verifier::external_body]
        pub fn new(t: &mut TeeReader) -> Self { unimplemented!() }
    }
} }
#[derive(PartialEq, Eq, Structural)]
pub enum EntryType { Regular, Link, Symlink, Char, Block, Directory, Fifo, Continuous, GNULongName, GNULongLink, GNUSparse, XGlobalHeader, XHeader, Other }
// (as the tar crate has them)
impl EntryType {
    pub fn is_file(&self) -> (r: bool) ensures r == (*self == EntryType::Regular) { matches!(self, EntryType::Regular) }
    pub fn is_hard_link(&self) -> (r: bool) ensures r == (*self == EntryType::Link) { matches!(self, EntryType::Link) }
    pub fn is_symlink(&self) -> (r: bool) ensures r == (*self == EntryType::Symlink) { matches!(self, EntryType::Symlink) }
    pub fn is_character_special(&self) -> (r: bool) ensures r == (*self == EntryType::Char) { matches!(self, EntryType::Char) }
    pub fn is_block_special(&self) -> (r: bool) ensures r == (*self == EntryType::Block) { matches!(self, EntryType::Block) }
    pub fn is_dir(&self) -> (r: bool) ensures r == (*self == EntryType::Directory) { matches!(self, EntryType::Directory) }
    pub fn is_fifo(&self) -> (r: bool) ensures r == (*self == EntryType::Fifo) { matches!(self, EntryType::Fifo) }
    pub fn is_contiguous(&self) -> (r: bool) ensures r == (*self == EntryType::Continuous) { matches!(self, EntryType::Continuous) }
}
pub mod tar { #[allow(unused_imports)] use super::*;
    pub use super::EntryType;
    #[verifier::external_body]
    pub struct Archive { _p: () }
    #[verifier::external_body]
    pub struct Entry { _p: () }
    #[verifier::external_body]
    pub struct Header { _p: () }
    #[verifier::external_body]
    pub struct Entries { _p: () }
    impl Archive {
        #[verifier::external_body]
        pub fn new(r: StdBufReader) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn entries(&mut self) -> Result<Entries, IoError> { unimplemented!() }
    }
    impl Entries {
        #[verifier::external_body]
        pub fn next(&mut self) -> Option<Result<Entry, IoError>> { unimplemented!() }
    }
    impl Entry {
        #[verifier::external_body]
        pub fn header(&self) -> &Header { unimplemented!() }
        #[verifier::external_body]
        pub fn path(&self) -> Result<Path, IoError> { unimplemented!() }
        #[verifier::external_body]
        pub fn read(&mut self, b: &mut [u8]) -> Result<usize, IoError> { unimplemented!() }
    }
    impl Header {
        #[verifier::external_body]
        pub fn mode(&self) -> Result<u32, IoError> { unimplemented!() }
        #[verifier::external_body]
        pub fn entry_type(&self) -> EntryType { unimplemented!() }
    }
}
impl VxIntoIter for tar::Entries {
    type I = tar::Entries;
    open spec fn same(self, i: tar::Entries) -> bool { true }
    fn vx_into(self) -> tar::Entries { self }
}
#[verifier::external_body]
pub fn vx_copy<R, W>(r: &mut R, w: &mut W) -> Result<u64, IoError> { unimplemented!() }
/// the path a file of the archive asks for, and one found in the package's package.json
#[verifier::external_body]
pub struct DashSet { _p: () }
pub mod dashmap { pub use super::DashSet; }
impl DashSet {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, p: &Path) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&self, p: Path) -> bool { unimplemented!() }
}
//@item crates/oro-common/src/build_manifest.rs BuildManifest
//@end
/// unit `bins`: what a package's manifest lists stays inside the package
pub open spec fn bins_inside(m: BuildManifest) -> bool {
    forall|k: Seq<char>| #[trigger] m.bin.m().contains_key(k) ==> all_plain(m.bin.m()[k].c())
}
impl BuildManifest {
    #[verifier::external_body]
    pub fn from_path(p: &Path) -> (r: Result<BuildManifest, IoError>) ensures r is Ok ==> bins_inside(r->Ok_0) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_names() -> Names { unimplemented!() }
#[verifier::external_body]
pub struct Names { _p: () }
impl Names {
    #[verifier::external_body]
    pub fn any<F: FnMut(&&str) -> bool>(self, f: F) -> bool requires forall|s: &&str| f.requires((s,)) { unimplemented!() }
}
pub trait VxFromStr: Sized { type E; fn from_text(s: &str) -> Result<Self, Self::E>; }
impl VxFromStr for Integrity { type E = SsriError;
    #[verifier::external_body]
    fn from_text(s: &str) -> Result<Self, SsriError> { unimplemented!() } }
#[verifier::external_body]
pub fn vx_parse_sri(s: &String) -> Result<Integrity, SsriError> { unimplemented!() }
#[verifier::external_body]
pub fn vx_dead() -> Integrity { unimplemented!() }
#[verifier::external_body]
pub struct RkyvError { _p: () }
impl VxDisp for RkyvError { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct AlignedVec { _p: () }
impl AlignedVec {
    #[verifier::external_body]
    pub fn into_vec(self) -> Vec<u8> { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_rkyv(i: &TarballIndex) -> Result<AlignedVec, RkyvError> { unimplemented!() }
// async-std's spawn_blocking, awaited
#[verifier::external_body]
pub fn vx_spawn_blocking<T, F: FnOnce() -> T>(f: F) -> (r: T) requires f.requires(()) ensures f.ensures((), r) { unimplemented!() }
// backon
#[verifier::external_body]
pub fn vx_retry<F: Fn() -> Result<(), NassunError>>(f: F) -> Result<(), NassunError> requires f.requires(()) { unimplemented!() }

pub type Result<T, E = NassunError> = core::result::Result<T, E>;
// ---- the repository's types ------------------------------
//@item crates/nassun/src/package.rs ExtractMode
//@attr #[derive(Clone, Copy)]
//@end
//@item crates/nassun/src/tarball.rs Tarball
//@end
//@item crates/nassun/src/entries.rs Entries
//@subst Archive<GzipDecoder<BufReader<Tarball>>> =>> Archive
//@subst EntriesStream =>> Box<EntriesStream>
//@end
impl Entries {
    /// what its bytes are checked against
    pub open spec fn sri(&self) -> Option<Integrity> { self.1.sri() }
}
//@item crates/nassun/src/tarball.rs TempTarball
//@subst std::io::Cursor<Vec<u8>> =>> Cursor<Vec<u8>>
//@end
//@item crates/nassun/src/tarball.rs TarballIndex
//@end
impl TarballIndex {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures !r.should_copy, r.bin_paths@.len() == 0, r.files.m() == Map::<Seq<char>, (String, u32)>::empty() { unimplemented!() }
}
//@item crates/nassun/src/tarball.rs MAX_IN_MEMORY_TARBALL_SIZE
//@end

// ---- what the properties say ------------------------------
/// all of it has been delivered, and if it is checked then it hashes to what it is checked against
pub open spec fn delivered(sri: Option<Integrity>, bytes: Seq<u8>) -> bool { sri is Some ==> matches(sri->0, bytes) }
impl Tarball {
    pub open spec fn checks(&self) -> Option<Integrity> { match self.checker { Some(c) => Some(c.sri()), None => None } }
    /// the checker has seen every byte handed out
    pub open spec fn wf(&self) -> bool { self.checker is Some ==> self.checker->0.fed() == self.reader.got() }
    /// nothing read from it yet; extraction reports the integrity that is checked
    pub open spec fn fresh(&self) -> bool { self.wf() && self.reader.got().len() == 0 && self.integrity == self.checks() }
}
impl TempTarball {
    pub open spec fn bytes(&self) -> Seq<u8> { match self { TempTarball::File(f) => f.bytes(), TempTarball::Memory(m) => m.bytes() } }
    #[verifier::external_body]
    pub fn rewind(&mut self) -> (r: Result<(), IoError>) ensures final(self).bytes() == old(self).bytes() { unimplemented!() }
}
/// every file listed stays inside the package
pub open spec fn index_inside(t: TarballIndex) -> bool { forall|k: Seq<char>| #[trigger] t.files.m().contains_key(k) ==> all_plain(path_of(k)) }
/// not a file system root, nor directly below one
pub open spec fn deep(d: Seq<Component>) -> bool { has_parent(d) && has_parent(d.drop_last()) }
impl ExtractMode {
//@fn crates/nassun/src/package.rs ExtractMode::is_copy
//@end
}

impl Tarball {
//@fn crates/nassun/src/tarball.rs Tarball::new
    requires reader.got().len() == 0
    ensures ret.fresh(), ret.checks() == Some(integrity)
//@at body_start
    proof { assert(reader.got() =~= Seq::<u8>::empty()); }
//@end
//@fn crates/nassun/src/tarball.rs Tarball::new_unchecked
    requires reader.got().len() == 0
    ensures ret.fresh(), ret.checks() is None
//@end
//@fn crates/nassun/src/tarball.rs AsyncRead@Tarball::poll_read
    requires old(self).wf(), old(buf)@.len() > 0
    ensures
        final(buf)@.len() == old(buf)@.len(),
        // what is handed out is what came, all of it checked, and the end is reported only if the check passes
        ret matches Poll::Ready(Ok(n)) ==> {
            &&& n <= final(buf)@.len() && final(self).reader.got() == old(self).reader.got() + final(buf)@.take(n as int)
            &&& n > 0 ==> final(self).wf() && final(self).checks() == old(self).checks()
            &&& n == 0 ==> delivered(old(self).checks(), final(self).reader.got())
        },
        ret is Pending ==> final(self).wf() && final(self).checks() == old(self).checks(),
//@sig fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (ret: Poll<Result<usize, IoError>>)
//@subst futures::ready!(Pin::new(&mut self.reader).poll_read(cx, buf))? =>> (match vx_ready_q(vx_self.reader.poll_read(cx, buf)) { Ok(n) => n, Err(p) => return p })
//@subst? &buf[..amt] =>> vx_slice(buf, amt)
//@subst? std::io::ErrorKind::InvalidData =>> std_io::ErrorKind::InvalidData
//@subst? std::io::Error::new =>> IoError::new
//@at body_start
    proof { assert(old(self).reader.got() + Seq::<u8>::empty() =~= old(self).reader.got()); }
//@end
//@fn crates/nassun/src/tarball.rs Tarball::into_temp
    requires self.wf(), self.reader.got().len() == 0
    ensures ret is Ok ==> delivered(self.checks(), ret->Ok_0.bytes())
//@attr #[verifier::exec_allows_no_decreases_clause]
//@subst? &buf[..n] =>> vx_slice(&buf, n)
//@subst? std::io::Cursor::new =>> Cursor::new
//@loop 0
    invariant reader.sri() == self.checks(), reader.out() == vec@, vec@.len() <= MAX_IN_MEMORY_TARBALL_SIZE
//@loop 1
    invariant reader.sri() == self.checks(), reader.out() == tempfile.bytes()
//@end
//@fn crates/nassun/src/tarball.rs Tarball::entries
    requires self.fresh()
    // entries are read from the checked stream
    ensures ret is Ok ==> ret->Ok_0.sri() == self.checks()
//@subst $0.map(|res| $1) =>> $0.vx_map()
//@closure 0 (IoError) -> (r: NassunError)
//@end
//@fn crates/nassun/src/tarball.rs Tarball::extract_from_tarball_data
    requires self.fresh(), may_fill(dir.c()), deep(dir.c())
    ensures ret is Ok && self.checks() is Some ==> ret->Ok_0 == self.checks()->0
//@m as_deref => as_ref
//@subst? cache.map(PathBuf::from) =>> cache.map(|p: &Path| -> (r: PathBuf) { PathBuf::from(p) })
//@subst? async_std::task::spawn_blocking =>> vx_spawn_blocking
//@closure 0 () -> (r: Result<Integrity, NassunError>)
    ensures r is Ok && integrity is Some ==> r->Ok_0 == integrity->0
//@end
}
impl TempTarball {
//@fn crates/nassun/src/tarball.rs TempTarball::extract_to_dir
    requires
        may_fill(dir.c()), deep(dir.c()),
        // nothing is unpacked as checked that was not
        delivered(tarball_integrity, self.bytes()),
    ensures ret is Ok && tarball_integrity is Some ==> ret->Ok_0 == tarball_integrity->0
//@attr #[verifier::exec_allows_no_decreases_clause]
//@at before mkdirp(dir, &created)
    proof {
        lemma_own(dir.c());
        assert forall|a: Seq<Component>| is_ancestor(a, dir.c()) implies #[trigger] may_mkdir(a) by { lemma_up(dir.c(), dir.c(), a); }
    }
//@at before mkdirp(parent, &created)
    proof {
        lemma_parent(dir.c(), path.c());
        assert forall|a: Seq<Component>| is_ancestor(a, parent.c()) implies #[trigger] may_mkdir(a) by { lemma_up(dir.c(), path.c(), a); }
    }
//@at body_start
    broadcast use comps_wf, comps_wf_str, lemma_join_inside;
//@loop 0
    invariant index_inside(tarball_index), build_mani is Some ==> bins_inside(build_mani->0)
//@loop 1
    invariant forall|i: int| 0 <= i < $it.all().len() ==> all_plain(path_of(#[trigger] ($it.all()[i].0)@))
//@loop 3
    invariant forall|i: int| 0 <= i < $it.all().len() ==> all_plain((#[trigger] $it.all()[i]).c())
//@subst? std::io::BufReader::new =>> StdBufReader::new
//@subst? std::io::BufWriter::new =>> BufWriter::new
//@subst? std::io::copy =>> vx_copy
//@subst? std::fs::OpenOptions::new =>> OpenOptions::new
//@subst? rkyv::util::to_bytes::<_, 1024>(&tarball_index) =>> vx_rkyv(&tarball_index)
//@subst? "xxh3-deadbeef".parse().unwrap() =>> vx_dead()
//@subst? sri.parse() =>> vx_parse_sri(sri)
//@subst? std::fs::remove_file =>> fs::remove_file
//@subst? ["preinstall", "install", "postinstall"].iter() =>> vx_names()
//@end
}
//@fn crates/nassun/src/tarball.rs mkdirp
    requires forall|a: Seq<Component>| is_ancestor(a, path.c()) ==> #[trigger] may_mkdir(a), has_parent(path.c())
//@at body_start
    proof { assert(path.c().take(path.c().len() as int) =~= path.c()); assert(may_mkdir(path.c())); }
//@attr #[verifier::exec_allows_no_decreases_clause]
//@subst? dashmap::DashSet<PathBuf> =>> DashSet
//@subst? std::fs::create_dir =>> fs::create_dir
//@subst? std::fs::create_dir_all =>> fs::create_dir_all
//@end
//@fn crates/nassun/src/tarball.rs set_bin_mode
    requires may_write(path.c())
//@subst? std::fs::metadata =>> fs::metadata
//@subst? std::fs::set_permissions =>> fs::set_permissions
//@subst? std::fs::Permissions::from_mode =>> Permissions::from_mode
//@end
//@fn crates/nassun/src/tarball.rs copy_from_cache
    requires may_write(to.c())
//@end
//@fn crates/nassun/src/tarball.rs reflink_from_cache
    requires may_write(to.c())
//@end
//@fn crates/nassun/src/tarball.rs hard_link_from_cache
    requires may_write(to.c())
//@end
//@fn crates/nassun/src/tarball.rs extract_from_cache
    requires may_write(to.c())
//@closure 0 (NassunError) -> (r: Result<(), NassunError>)
    requires may_write(to.c())
//@closure 1 () -> (r: Result<(), NassunError>)
    requires may_write(to.c())
//@closure 3 (NassunError) -> (r: Result<(), NassunError>)
    requires may_write(to.c())
//@closure 4 (NassunError) -> (r: Result<(), NassunError>)
    requires may_write(to.c())
//@subst $0.retry($1).notify($2).call() =>> vx_retry($0)
//@subst? std::fs::set_permissions =>> fs::set_permissions
//@subst? std::fs::Permissions::from_mode =>> Permissions::from_mode
//@end
//@fn crates/nassun/src/tarball.rs strip_one
    ensures ret is Some <==> path.c().len() > 0, ret is Some ==> ret->0.c() == path.c().skip(1)
//@closure 0 (Component) -> (r: &Path)
    ensures r.c() == comps.c()
//@end
//@fn crates/nassun/src/tarball.rs stays_inside
    ensures ret == all_plain(path.c())
//@closure 0 (Component) -> (b: bool)
    ensures b == plain($0)
//@end
//@fn crates/nassun/src/tarball.rs tarball_key
    ensures ret@ == "nassun::package::"@ + integrity.disp()
//@end

// ---- package.rs ------------------------------
#[verifier::external_body]
pub struct PackageSpec { _p: () }
#[verifier::external_body]
pub struct SemVerVersion { _p: () }
pub type Version = SemVerVersion;
#[verifier::external_body]
pub struct GitInfo { _p: () }
#[verifier::external_body]
pub struct Url { _p: () }
//@item crates/nassun/src/resolver.rs PackageResolution
//@end
impl PackageResolution {
    pub open spec fn sri(&self) -> Option<Integrity> {
        match self { PackageResolution::Npm { integrity: Some(i), .. } => Some(*i), _ => None }
    }
//@fn crates/nassun/src/resolver.rs PackageResolution::integrity
    ensures ret is Some <==> self.sri() is Some, ret is Some ==> *ret->0 == self.sri()->0
//@end
}
/// a fetcher's stream is new
#[verifier::external_body]
pub struct Fetcher { _p: () }
impl Fetcher {
    #[verifier::external_body]
    pub fn tarball(&self, p: &Package) -> (r: Result<TarballStream>) ensures r is Ok ==> r->Ok_0.got().len() == 0 { unimplemented!() }
}
#[verifier::external_body]
pub struct CachePath { _p: () }
impl CachePath {
    #[verifier::external_body]
    pub fn as_deref(&self) -> Option<&Path> { unimplemented!() }
}
//@item crates/nassun/src/package.rs Package
//@subst Arc<dyn PackageFetcher> =>> Fetcher
//@subst Arc<Option<PathBuf>> =>> CachePath
//@end
#[verifier::external_body]
fn clean_from_cache(cache: &Path, sri: &Integrity, entry: cacache::Metadata) -> Result<()> { unimplemented!() }
// rkyv's archived index
#[verifier::external_body]
pub struct ArchivedString { _p: () }
impl ArchivedString {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_str(&self) -> (r: &str) ensures r@ == self.t() { unimplemented!() }
    #[verifier::external_body]
    pub fn parse(&self) -> Result<Integrity, SsriError> { unimplemented!() }
}
impl VxDisp for ArchivedString { open spec fn disp(&self) -> Seq<char> { self.t() } uninterp spec fn dbg(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct ArchivedFiles { _p: () }
impl ArchivedFiles {
    #[verifier::external_body]
    pub fn iter(&self) -> Iter<(&ArchivedString, &(ArchivedString, u32))> { unimplemented!() }
}
#[verifier::external_body]
pub struct ArchivedBins { _p: () }
impl ArchivedBins {
    #[verifier::external_body]
    pub fn contains(&self, s: &ArchivedString) -> bool { unimplemented!() }
}
pub struct ArchivedTarballIndex { pub should_copy: bool, pub bin_paths: ArchivedBins, pub files: ArchivedFiles }
#[verifier::external_body]
pub struct RkyvCheckError { _p: () }
impl RkyvCheckError {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
impl cacache::Metadata {
    #[verifier::external_body]
    pub fn vx_index(&self, name: String) -> Result<&ArchivedTarballIndex> { unimplemented!() }
}
//@fn crates/nassun/src/package.rs Package::extract_to_dir::inner
    requires may_fill(dir.c()), deep(dir.c())
    ensures ret is Ok && me.resolved.sri() is Some ==> ret->Ok_0 == me.resolved.sri()->0
//@sig fn vx_extract(me: &Package, dir: &Path, extract_mode: ExtractMode) -> (ret: Result<Integrity>)
//@end
//@fn crates/nassun/src/package.rs Package::extract_to_dir_unchecked::inner
    requires may_fill(dir.c()), deep(dir.c())
//@sig fn vx_extract_unchecked(me: &Package, dir: &Path, extract_mode: ExtractMode) -> (ret: Result<Integrity>)
//@end
//@fn crates/nassun/src/package.rs Package::extract_to_dir_checked::inner
    requires may_fill(dir.c()), deep(dir.c())
    ensures ret is Ok ==> ret->Ok_0 == sri
//@sig fn vx_extract_checked(me: &Package, dir: &Path, sri: Integrity, extract_mode: ExtractMode) -> (ret: Result<Integrity>)
//@end
/// what is taken as a `&Path`
pub trait VxAsPath { spec fn pc(&self) -> Seq<Component>; fn vx_as_ref(&self) -> (r: &Path) ensures r.c() == self.pc(); }
impl Package {
//@fn crates/nassun/src/package.rs Package::name
//@end
//@fn crates/nassun/src/package.rs Package::tarball_unchecked
    ensures ret is Ok ==> ret->Ok_0.fresh() && ret->Ok_0.checks() is None
//@end
//@fn crates/nassun/src/package.rs Package::tarball
    ensures ret is Ok ==> ret->Ok_0.fresh() && ret->Ok_0.checks() == self.resolved.sri()
//@end
//@fn crates/nassun/src/package.rs Package::tarball_checked
    ensures ret is Ok ==> ret->Ok_0.fresh() && ret->Ok_0.checks() == Some(integrity)
//@end
//@fn crates/nassun/src/package.rs Package::entries
    ensures ret is Ok ==> ret->Ok_0.sri() == self.resolved.sri()
//@end
//@fn crates/nassun/src/package.rs Package::entries_unchecked
    ensures ret is Ok ==> ret->Ok_0.sri() is None
//@end
//@fn crates/nassun/src/package.rs Package::entries_checked
    ensures ret is Ok ==> ret->Ok_0.sri() == Some(integrity)
//@end
//@fn crates/nassun/src/package.rs Package::extract_to_dir_inner
    requires may_fill(dir.c()), deep(dir.c())
    // what is unpacked without being checked is never reported under the integrity that was asked for
    ensures ret is Ok && integrity is Some ==> ret->Ok_0 == *integrity->0
//@end
//@fn crates/nassun/src/package.rs Package::extract_to_dir
    requires may_fill(dir.pc()), deep(dir.pc())
    // the checksum the resolution recorded, if it recorded one
    ensures ret is Ok && self.resolved.sri() is Some ==> ret->Ok_0 == self.resolved.sri()->0
//@subst impl AsRef<Path> =>> impl VxAsPath
//@m as_ref => vx_as_ref
//@subst? inner($0) =>> vx_extract($0)
//@end
//@fn crates/nassun/src/package.rs Package::extract_to_dir_unchecked
    requires may_fill(dir.pc()), deep(dir.pc())
//@subst impl AsRef<Path> =>> impl VxAsPath
//@m as_ref => vx_as_ref
//@subst? inner($0) =>> vx_extract_unchecked($0)
//@end
//@fn crates/nassun/src/package.rs Package::extract_to_dir_checked
    requires may_fill(dir.pc()), deep(dir.pc())
    ensures ret is Ok ==> ret->Ok_0 == sri
//@subst impl AsRef<Path> =>> impl VxAsPath
//@m as_ref => vx_as_ref
//@subst? inner($0) =>> vx_extract_checked($0)
//@end
//@fn crates/nassun/src/package.rs Package::extract_from_cache
    requires may_fill(dir.c()), deep(dir.c())
//@attr #[verifier::exec_allows_no_decreases_clause]
//@subst async_std::task::spawn_blocking(move || $0).await? =>> { $0 }?
//@subst rkyv::check_archived_root::<TarballIndex>($0).map_err($1)? =>> entry.vx_index(name)?
//@at body_start
    broadcast use comps_wf, comps_wf_str, lemma_join_inside;
//@at before let parent = PathBuf::from
    proof { lemma_parent(dir.c(), path.c()); }
//@at before crate::tarball::mkdirp(&parent
    proof {
        assert forall|a: Seq<Component>| is_ancestor(a, parent.c()) implies #[trigger] may_mkdir(a) by { lemma_up(dir.c(), path.c(), a); }
    }
//@subst? &archived_path[..] =>> archived_path.vx_str()
//@end
}
}
fn main() {}
