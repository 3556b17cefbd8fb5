use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Event {
    Append(Vec<u8>),
    Challenge([u8; 32]),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MerkleQuery {
    pub root: Vec<u8>,
    pub index: usize,
    pub leaf: Vec<u8>,
    pub path: Vec<Vec<u8>>,
}
type ChallengeHook = Rc<dyn Fn(usize, [u8; 32]) -> [u8; 32]>;
type MerkleHook = Rc<dyn Fn(&MerkleQuery) -> bool>;
thread_local! {
    static LOG: RefCell<Option<Vec<Event>>> = RefCell::new(None);
    static CHALLENGE: RefCell<Option<ChallengeHook>> = RefCell::new(None);
    static MERKLE: RefCell<Option<MerkleHook>> = RefCell::new(None);
}
/// Starts recording what transcripts absorb and emit.
pub fn start_log() {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
}
pub fn take_log() -> Vec<Event> {
    LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
}
pub(crate) fn log(e: Event) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(e)
        }
    });
}
/// The hook receives (number of the challenge in its transcript, the hash of the transcript so far).
pub fn set_challenge(h: Option<ChallengeHook>) {
    CHALLENGE.with(|c| *c.borrow_mut() = h);
}
pub(crate) fn challenge(n: usize, b: [u8; 32]) -> [u8; 32] {
    let h = CHALLENGE.with(|c| c.borrow().clone());
    match h {
        Some(h) => h(n, b),
        None => b,
    }
}
/// Replaces the verdict of Merkle openings.
pub fn set_merkle(h: Option<MerkleHook>) {
    MERKLE.with(|c| *c.borrow_mut() = h);
}
pub(crate) fn merkle() -> Option<MerkleHook> {
    MERKLE.with(|c| c.borrow().clone())
}
