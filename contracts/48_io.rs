// ---- C17: files and streams ------------------------------------------------------------------------------
// The outside world: opaque handles with assumed contracts. A path is known by pv(); a reader by what reading it to the end yields;
// a writer by the text it has accepted. Err results of the operating system are recorded by uninterpreted facts, so that a function can
// only answer Err when some operation it performed failed, and Ok only when every named operation succeeded.
pub type PathV = int;
/// the text a file holds (None: missing, unreadable, not UTF-8)
pub uninterp spec fn fs_text(p: PathV) -> Option<Seq<char>>;
/// writing exactly this text to this path (replacing what was there) succeeded / an operation on this path failed / the directory exists
pub uninterp spec fn fs_wrote(p: PathV, t: Seq<char>) -> bool;
pub uninterp spec fn fs_failed(p: PathV) -> bool;
pub uninterp spec fn fs_dir(p: PathV) -> bool;
pub uninterp spec fn fs_parent(p: PathV) -> Option<PathV>;
#[verifier::external_body] pub struct KxP { _p: u8 }
impl KxP {
    pub uninterp spec fn v(&self) -> PathV;
    #[verifier::external_body] pub fn kx_parent(&self) -> (r: Option<&KxP>) ensures match r { Some(d) => fs_parent(self.v()) == Some(d.v()), None => fs_parent(self.v()) is None } { unimplemented!() }
}
pub trait KxPath: Sized {
    spec fn pv(&self) -> PathV;
    fn kx_as_ref(&self) -> (r: &KxP) ensures r.v() == self.pv();
}
impl KxPath for &KxP { open spec fn pv(&self) -> PathV { self.v() } #[verifier::external_body] fn kx_as_ref(&self) -> (r: &KxP) { unimplemented!() } }
#[verifier::external_body] pub fn kx_fs_create_dir_all(p: impl KxPath) -> (r: std::result::Result<(), KxIoError>) ensures match r { Ok(_) => fs_dir(p.pv()), Err(_) => fs_failed(p.pv()) } { unimplemented!() }
#[verifier::external_body] pub fn kx_fs_write(p: impl KxPath, t: impl KxInto) -> (r: std::result::Result<(), KxIoError>) ensures match r { Ok(_) => fs_wrote(p.pv(), t.iv()), Err(_) => fs_failed(p.pv()) } { unimplemented!() }
#[verifier::external_body] pub fn kx_fs_read_to_string(p: impl KxPath) -> (r: std::result::Result<String, KxIoError>) ensures match (r, fs_text(p.pv())) { (Ok(s), Some(t)) => s@ == t, (Err(_), None) => true, _ => false } { unimplemented!() }
pub trait KxRead: Sized {
    /// what reading to the end yields (None: a read fails or the bytes are not UTF-8)
    spec fn rest(&self) -> Option<Seq<char>>;
    fn kx_read_to_string(&mut self, buf: &mut String) -> (r: std::result::Result<usize, KxIoError>)
        ensures match old(self).rest() { Some(t) => r is Ok && final(buf)@ == old(buf)@ + t, None => r is Err };
}
pub trait KxWrite: Sized {
    /// the text accepted so far; whether a write was refused
    spec fn wrote(&self) -> Seq<char>;
    spec fn refused(&self) -> bool;
    fn kx_write_fmt(&mut self, s: String) -> (r: std::result::Result<(), KxIoError>)
        ensures match r { Ok(_) => final(self).wrote() == old(self).wrote() + s@ && final(self).refused() == old(self).refused(), Err(_) => final(self).refused() };
}
/// what parsing the text t answers
pub open spec fn parsed(t: Seq<char>, r: Result<Document, KissXmlError>) -> bool { known_second_decl(t) || match parse_spec(t) { Some(d) => r is Ok && doc_v(r->Ok_0) == d, None => r is Err } }
