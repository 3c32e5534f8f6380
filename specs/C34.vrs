//@include prelude.vrs
global size_of usize == 8;
pub mod io {
    use super::*;
    #[verifier::external_body] pub struct Error { x: u8 }
    pub enum ErrorKind { InvalidData, Other }
    impl Error { #[verifier::external_body] pub fn new(k: ErrorKind, e: GzpError) -> (r: Error) { unimplemented!() } }
}
#[verifier::external_body] #[derive(Debug)] pub struct GzpError { x: u8 }
impl GzpError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
// errors convert into each other (From); their contents do not matter here
// paths: joining a base with different chunk names gives different files
#[verifier::external_body] pub struct PathBuf { x: u8 }
pub uninterp spec fn file_of(base: PathBuf, name: Seq<char>) -> Seq<char>;
pub uninterp spec fn chunk_name(n: int) -> Seq<char>;
pub open spec fn part_file(base: PathBuf, n: int) -> Seq<char> { file_of(base, chunk_name(n)) }
#[verifier::external_body] pub proof fn ax_part_files(base: PathBuf) ensures forall|a: int, b: int| a != b ==> #[trigger] part_file(base, a) != #[trigger] part_file(base, b) {}
#[verifier::external_body] pub fn vx_chunk_name(n: usize) -> (r: String) ensures r@ == chunk_name(n as int) { unimplemented!() }
#[verifier::external_body] pub struct FilePath { x: u8 }
impl FilePath { pub uninterp spec fn name(self) -> Seq<char>; }
#[verifier::external_body] pub fn vx_create_dir_all(p: &PathBuf) -> (r: Result<(), io::Error>) { unimplemented!() }
impl PathBuf {
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, n: String) -> (r: FilePath) ensures r.name() == file_of(*self, n@) { unimplemented!() } }
// the file system: what each finished file holds once decompressed (ghost)
#[verifier::external_body] pub tracked struct Fs { x: u8 }
impl Fs { pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<u8>>; }
#[verifier::external_body] pub struct File { x: u8 }
impl File {
    pub uninterp spec fn name(self) -> Seq<char>;
    // creating a file empties it
    #[verifier::external_body] pub fn create(p: &FilePath, Tracked(fs): Tracked<&mut Fs>) -> (r: Result<File, io::Error>)
        ensures r is Ok ==> r->Ok_0.name() == p.name() && final(fs)@ == old(fs)@.insert(p.name(), seq![]), r is Err ==> forall|q: Seq<char>| q != p.name() ==> (final(fs)@.contains_key(q) <==> #[trigger] old(fs)@.contains_key(q)) && final(fs)@[q] == old(fs)@[q] { unimplemented!() }
}
// gzp: what is written is compressed into the file, which is complete once finish succeeds (trusted)
pub struct Gzip;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ParCompress<T> { x: core::marker::PhantomData<T> }
impl<T> ParCompress<T> {
    pub uninterp spec fn name(self) -> Seq<char>;
    pub uninterp spec fn bytes(self) -> Seq<u8>;
    #[verifier::external_body] pub fn write(&mut self, buf: &[u8]) -> (r: Result<usize, io::Error>)
        ensures final(self).name() == old(self).name(), r is Ok ==> r->Ok_0 <= buf@.len() && final(self).bytes() == old(self).bytes() + buf@.take(r->Ok_0 as int) { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), io::Error>) ensures final(self).name() == old(self).name(), final(self).bytes() == old(self).bytes() { unimplemented!() }
    #[verifier::external_body] pub fn finish(&mut self, Tracked(fs): Tracked<&mut Fs>) -> (r: Result<(), GzpError>)
        ensures r is Ok ==> final(fs)@ == old(fs)@.insert(old(self).name(), old(self).bytes()),
            r is Err ==> forall|q: Seq<char>| q != old(self).name() ==> (final(fs)@.contains_key(q) <==> #[trigger] old(fs)@.contains_key(q)) && final(fs)@[q] == old(fs)@[q] { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ParCompressBuilder<T> { x: core::marker::PhantomData<T> }
impl ParCompressBuilder<Gzip> {
    #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn num_threads(self, n: usize) -> (r: Result<Self, GzpError>) ensures n > 0 ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn from_writer(self, f: File) -> (r: ParCompress<Gzip>) ensures r.name() == f.name(), r.bytes() == Seq::<u8>::empty() { unimplemented!() }
}
//@item src/storage/db/multi_chunk_writer.rs::MultiChunkWriter
pub open spec fn at(fs: Map<Seq<char>, Seq<u8>>, f: Seq<char>) -> Seq<u8> { if fs.contains_key(f) { fs[f] } else { seq![] } }
// the first n parts, one after the other
pub open spec fn parts(fs: Map<Seq<char>, Seq<u8>>, base: PathBuf, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { parts(fs, base, n - 1) + at(fs, part_file(base, n)) } }
proof fn lemma_parts_same(a: Map<Seq<char>, Seq<u8>>, b: Map<Seq<char>, Seq<u8>>, base: PathBuf, n: int)
    requires forall|i: int| 1 <= i <= n ==> at(a, #[trigger] part_file(base, i)) == at(b, part_file(base, i))
    ensures parts(a, base, n) == parts(b, base, n) decreases n
{ if n > 0 { lemma_parts_same(a, b, base, n - 1); assert(at(a, part_file(base, n)) == at(b, part_file(base, n))); } }
impl MultiChunkWriter {
    // parts that are finished
    pub open spec fn closed(&self) -> int { if self.encoder is Some { self.current_part - 1 } else { self.current_part as int } }
    pub open spec fn open_bytes(&self) -> Seq<u8> { if self.encoder is Some { self.encoder->Some_0.bytes() } else { seq![] } }
    pub open spec fn wf(&self) -> bool {
        self.encoder is Some ==> self.current_part >= 1 && self.encoder->Some_0.name() == part_file(self.base_path, self.current_part as int)
            && self.encoder->Some_0.bytes().len() == self.current_size && self.current_size <= isize::MAX
    }
    // everything accepted so far, in order
    pub open spec fn content(&self, fs: Map<Seq<char>, Seq<u8>>) -> Seq<u8> { parts(fs, self.base_path, self.closed()) + self.open_bytes() }
    // nothing that was finished is touched
    pub open spec fn kept(&self, a: Map<Seq<char>, Seq<u8>>, b: Map<Seq<char>, Seq<u8>>) -> bool { forall|i: int| 1 <= i <= self.closed() ==> at(b, #[trigger] part_file(self.base_path, i)) == at(a, part_file(self.base_path, i)) }
    pub open spec fn same_setup(&self, o: &MultiChunkWriter) -> bool { self.base_path == o.base_path && self.max_size == o.max_size }
//@fn src/storage/db/multi_chunk_writer.rs::MultiChunkWriter::new -> r
    ensures r.wf(), r.current_part == 0, r.encoder is None, r.base_path == base_path, r.max_size == max_size,
//@endfn
//@fn src/storage/db/multi_chunk_writer.rs::MultiChunkWriter::ensure_directory_exists -> r
    ensures true,
//@rw `<P: AsRef<Path>>` => ``
//@rw `path: P` => `path: &PathBuf`
//@rw `path.as_ref().exists()` => `path.exists()`
//@rw `fs::create_dir_all(` => `vx_create_dir_all(`
//@rw `Result<()>` => `std::result::Result<(), io::Error>`
//@endfn
//@fn src/storage/db/multi_chunk_writer.rs::MultiChunkWriter::next_part -> r
    requires old(self).wf(), old(self).current_part < usize::MAX,
    ensures final(self).wf(), final(self).same_setup(old(self)), old(self).kept(old(fs)@, final(fs)@),
        r is Ok ==> final(self).encoder is Some && final(self).current_part == old(self).current_part + 1 && final(self).current_size == 0
            && final(self).content(final(fs)@) == old(self).content(old(fs)@) && final(self).open_bytes() == Seq::<u8>::empty(),
//@rw `(&mut self)` => `(&mut self, Tracked(fs): Tracked<&mut Fs>)`
//@rw `Result<()>` => `std::result::Result<(), io::Error>`
//@rw `self.finish()` => `self.finish(Tracked(fs))`
//@rw `File::create(&file_name)` => `File::create(&file_name, Tracked(fs))`
//@rw `format!("chunk_{:04}.bin", self.current_part)` => `vx_chunk_name(self.current_part)`
//@start
    proof { ax_part_files(self.base_path); }
    let ghost f0 = fs@;
//@after `self.finish()?;`
    let ghost f1 = fs@;
    proof { if old(self).encoder is Some { lemma_parts_same(f0, f1, self.base_path, old(self).closed()); } assert(parts(f1, self.base_path, self.current_part as int) =~= old(self).content(f0)); }
//@after `self.current_part += 1;`
    let ghost here = part_file(self.base_path, self.current_part as int);
    proof { assert forall|i: int| 1 <= i < self.current_part implies #[trigger] part_file(self.base_path, i) != here by {} }
//@before `self.current_size = 0;`
    proof { lemma_parts_same(f1, fs@, self.base_path, old(self).current_part as int); }
    assert(parts(fs@, self.base_path, self.current_part - 1) + Seq::<u8>::empty() =~= parts(f1, self.base_path, self.current_part - 1));
//@endfn
//@fn src/storage/db/multi_chunk_writer.rs::MultiChunkWriter::finish -> r
    requires old(self).wf(),
    ensures final(self).encoder is None, final(self).wf(), final(self).same_setup(old(self)), final(self).current_part == old(self).current_part, old(self).kept(old(fs)@, final(fs)@),
        r is Ok ==> final(self).content(final(fs)@) == old(self).content(old(fs)@),
        r is Ok && old(self).encoder is Some ==> final(fs)@ == old(fs)@.insert(part_file(old(self).base_path, old(self).current_part as int), old(self).open_bytes()),
        old(self).encoder is None ==> r is Ok && final(fs)@ == old(fs)@,
//@rw `(&mut self)` => `(&mut self, Tracked(fs): Tracked<&mut Fs>)`
//@rw `Result<()>` => `std::result::Result<(), io::Error>`
//@rw `encoder.finish()` => `encoder.finish(Tracked(fs))`
//@closure 0 |e: GzpError| -> (o: io::Error)
//@start
    proof { ax_part_files(self.base_path); }
    let ghost f0 = fs@;
//@before `Ok(())`
    proof { if old(self).encoder is Some { lemma_parts_same(f0, fs@, self.base_path, old(self).closed()); } assert(self.content(fs@) =~= old(self).content(f0)); }
//@endfn
//@fn src/storage/db/multi_chunk_writer.rs::<Write for MultiChunkWriter>::write -> r
    requires old(self).wf(), old(self).current_part < usize::MAX, old(self).max_size <= isize::MAX,
    ensures final(self).same_setup(old(self)), old(self).kept(old(fs)@, final(fs)@),
        r is Ok ==> {
            &&& final(self).wf() && r->Ok_0 <= buf@.len()
            // the bytes accepted come after everything accepted before
            &&& final(self).content(final(fs)@) == old(self).content(old(fs)@) + buf@.take(r->Ok_0 as int)
            // a part is above the limit only if one write alone is
            &&& final(self).current_size <= final(self).max_size || final(self).open_bytes() == buf@.take(r->Ok_0 as int)
            // and a new part begins only when the bytes do not fit
            &&& final(self).current_part == (if old(self).encoder is Some && old(self).current_size + buf@.len() <= old(self).max_size { old(self).current_part as int } else { old(self).current_part + 1 })
        },
//@rw `(&mut self, buf: &[u8])` => `(&mut self, buf: &[u8], Tracked(fs): Tracked<&mut Fs>)`
//@rw `Result<usize>` => `std::result::Result<usize, io::Error>`
//@rw `self.next_part()` => `self.next_part(Tracked(fs))`
//@start
    proof { ax_len(buf); }
    let ghost f0 = fs@;
//@before `if let Some(encoder) = self.encoder.as_mut()`
    let ghost mid = *self;
    assert(mid.content(fs@) == old(self).content(f0));
//@before `Ok(size)`
    proof { assert(parts(fs@, mid.base_path, mid.closed()) + (mid.open_bytes() + buf@.take(size as int)) =~= mid.content(fs@) + buf@.take(size as int)); }
//@endfn
//@fn src/storage/db/multi_chunk_writer.rs::<Write for MultiChunkWriter>::flush -> r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_setup(old(self)), final(self).current_part == old(self).current_part, forall|fs: Map<Seq<char>, Seq<u8>>| #[trigger] final(self).content(fs) == old(self).content(fs),
//@rw `Result<()>` => `std::result::Result<(), io::Error>`
//@endfn
}
// ---- publishing the chunks: the order in which they are listed is the order in which a restore joins them
#[verifier::external_body] #[derive(Debug)] pub struct SystemTimeError { x: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct SerdeError { x: u8 }
pub enum SnapshotError { SystemTimeError, IoError, SerdeJsonError, DateError, UnableToParseFileName, PutError }
impl From<io::Error> for SnapshotError { #[verifier::external_body] fn from(e: io::Error) -> SnapshotError { unimplemented!() } }
impl From<SystemTimeError> for SnapshotError { #[verifier::external_body] fn from(e: SystemTimeError) -> SnapshotError { unimplemented!() } }
impl From<SerdeError> for SnapshotError { #[verifier::external_body] fn from(e: SerdeError) -> SnapshotError { unimplemented!() } }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct FarcasterNetwork { x: u8 }
#[verifier::external_body] pub struct Config { x: u8 }
#[verifier::external_body] pub struct StatsdClientWrapper { x: u8 }
impl StatsdClientWrapper { #[verifier::external_body] pub fn count_with_shard(&self, s: u32, k: &str, n: u64, t: Vec<u8>) { unimplemented!() } }
#[verifier::external_body] pub fn vx_now_ms() -> (r: Result<i64, SystemTimeError>) { unimplemented!() }
#[verifier::external_body] pub fn vx_send() -> (r: Result<(), SnapshotError>) { unimplemented!() }
#[verifier::external_body] pub struct DirEntry { x: u8 }
impl DirEntry { pub uninterp spec fn name(self) -> Seq<char>; pub uninterp spec fn utf8(self) -> bool; }
#[verifier::external_body] pub fn vx_file_name(e: &DirEntry) -> (r: Option<String>) ensures r is Some <==> e.utf8(), r is Some ==> r->Some_0@ == e.name() { unimplemented!() }
#[verifier::external_body] pub fn vx_read_file(e: &DirEntry) -> (r: Result<Vec<u8>, io::Error>) { unimplemented!() }
pub uninterp spec fn listing(dir: Seq<char>) -> Seq<Result<DirEntry, io::Error>>;
// a directory lists its entries in no particular order
#[verifier::external_body] pub fn vx_read_dir(dir: &String) -> (r: Result<Vec<Result<DirEntry, io::Error>>, io::Error>) ensures r is Ok ==> r->Ok_0@ == listing(dir@) { unimplemented!() }
#[verifier::external_body] pub fn vx_take<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
// the order of strings, and the names in it
pub uninterp spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool;
pub open spec fn in_order(v: Seq<String>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> str_le(#[trigger] v[i]@, #[trigger] v[j]@) }
pub open spec fn entries(v: Seq<String>, l: Seq<Result<DirEntry, io::Error>>, n: int) -> bool {
    v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] l[i]) is Ok && v[i]@ == l[i]->Ok_0.name()
}
pub trait VxSort { fn vx_sort(&mut self); }
#[verifier::external_body] pub fn vx_sort(v: &mut Vec<String>) ensures in_order(final(v)@), final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset() { unimplemented!() }
//@fn src/storage/db/snapshot.rs::snapshot_directory -> r
    ensures true,
//@endfn
//@fn src/storage/db/snapshot.rs::metadata_path -> r
    ensures true,
//@endfn
//@item src/storage/db/snapshot.rs::SnapshotMetadata
// the list that a restore follows names every chunk of the directory, in the order of the names
#[verifier::external_body] pub fn vx_publish(m: &SnapshotMetadata, Ghost(dir): Ghost<Seq<char>>) -> (r: Result<String, SerdeError>)
    requires in_order(m.chunks@), exists|v: Seq<String>| entries(v, listing(dir), listing(dir).len() as int) && #[trigger] v.to_multiset() == m.chunks@.to_multiset()
{ unimplemented!() }
//@fn src/storage/db/snapshot.rs::upload_to_s3 -> r
    ensures true,
//@rw `SystemTime::now().duration_since(UNIX_EPOCH)?.as_millis() as i64` => `vx_now_ms()?`
//@rw `let start_date = chrono::DateTime::from_timestamp_millis(start_timetamp).ok_or(SnapshotError::DateError)?.date_naive();` => ``
//@rw `std::fs::read_dir(chunked_dir_path)?` => `vx_read_dir(&chunked_dir_path)?`
//@rw `for entry in files {` => `let mut vx_i: usize = 0; while vx_i < files.len() invariant files@ == listing(chunked_dir_path@), vx_i <= files@.len(), entries(file_names@, files@, vx_i as int) decreases files.len() - vx_i { let entry = vx_take(&files, vx_i); vx_i = vx_i + 1;`
//@rw `entry.file_name().to_str().ok_or(SnapshotError::UnableToParseFileName)?.to_string()` => `vx_file_name(&entry).ok_or(SnapshotError::UnableToParseFileName)?`
//@rw `let mut file = tokio::fs::File::open(entry.path()).await?;` => ``
//@rw `let mut buffer = Vec::new(); file.read_to_end(&mut buffer).await?;` => `let buffer = vx_read_file(&entry)?;`
//@rw `let retry_strategy = tokio_retry2::strategy::FixedInterval::from_millis(10_000).take(5);` => ``
//@rwcall `Retry::spawn(` => `vx_send()`
//@rw `.await?` => `?`
//@rw `file_names.sort();` => `let ghost vx_listed = file_names@; vx_sort(&mut file_names);`
//@rw `serde_json::to_string(&metadata)?` => `vx_publish(&metadata, Ghost(chunked_dir_path@))?`
//@endfn
} // verus!
fn main() {}
