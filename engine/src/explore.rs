//! Path exploration by re-execution: every undecided test becomes an atom.
use crate::{hooks, report, sym, U256};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Atom {
    /// the term is zero (monic numerator)
    Zero(U256),
    /// a Merkle opening verifies
    Merkle(hooks::MerkleQuery),
}
impl Atom {
    pub fn zero(v: &crate::FE) -> Atom {
        Atom::Zero(sym::zero_atom(v.value()))
    }
    pub fn merkle(root: &[u8], index: usize, leaf: Vec<u8>, path: Vec<Vec<u8>>) -> Atom {
        Atom::Merkle(norm(hooks::MerkleQuery { root: root.to_vec(), index, leaf, path }))
    }
    pub fn show(&self) -> String {
        match self {
            Atom::Zero(v) => format!("{} = 0", sym::show(v)),
            Atom::Merkle(m) => format!(
                "merkle(root {}.., index {}, {} leaf bytes, {} siblings)",
                m.root.iter().take(4).map(|b| format!("{:02x}", b)).collect::<String>(),
                m.index,
                m.leaf.len(),
                m.path.len()
            ),
        }
    }
}
/// Only the low bits of the index, one per sibling, take part in an opening.
pub fn norm(mut q: hooks::MerkleQuery) -> hooks::MerkleQuery {
    let n = q.path.len();
    if n < usize::BITS as usize {
        q.index &= (1usize << n) - 1;
    }
    q
}
#[derive(Clone, Debug)]
pub enum Outcome<T> {
    Value(T),
    Panic(String),
}
#[derive(Clone, Debug)]
pub struct Path<T> {
    pub literals: Vec<(usize, bool)>,
    pub outcome: Outcome<T>,
}
pub struct Exploration<T> {
    pub atoms: Vec<Atom>,
    pub paths: Vec<Path<T>>,
    pub complete: bool,
}
#[derive(Default)]
struct State {
    atoms: Vec<Atom>,
    ids: HashMap<Atom, usize>,
    prefix: Vec<bool>,
    taken: Vec<(usize, bool)>,
}
impl State {
    fn id(&mut self, a: Atom) -> usize {
        if let Some(i) = self.ids.get(&a) {
            return *i;
        }
        let i = self.atoms.len();
        self.atoms.push(a.clone());
        self.ids.insert(a, i);
        i
    }
    fn decide(&mut self, a: Atom) -> bool {
        let i = self.id(a);
        if let Some((_, b)) = self.taken.iter().find(|(j, _)| *j == i) {
            return *b;
        }
        let k = self.taken.len();
        let b = if k < self.prefix.len() { self.prefix[k] } else { true };
        self.taken.push((i, b));
        b
    }
}
thread_local! { static QUIET: RefCell<bool> = RefCell::new(false); }
/// Runs `f`, capturing a panic of the code under test.
pub fn capture<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    std::panic::set_hook(hook);
    match r {
        Ok(v) => Outcome::Value(v),
        Err(e) => {
            let t = report::panic_text(&e);
            if t.starts_with("SYM_") {
                std::panic::resume_unwind(e);
            }
            Outcome::Panic(t)
        }
    }
}
/// Explores every path of `f` (up to `max_paths`).  With `merkle`, openings are free atoms too.
pub fn explore<T>(max_paths: usize, merkle: bool, f: impl Fn() -> T) -> Exploration<T> {
    explore_with(max_paths, merkle, Rc::new(|_: &Atom| None), f)
}
/// As `explore`, with atoms whose value is known beforehand.
pub fn explore_with<T>(
    max_paths: usize,
    merkle: bool,
    known: Rc<dyn Fn(&Atom) -> Option<bool>>,
    f: impl Fn() -> T,
) -> Exploration<T> {
    explore_until(max_paths, merkle, known, f, |_, _| false)
}
/// As `explore_with`; stops (incomplete) when `stop` answers true for a path.
pub fn explore_until<T>(
    max_paths: usize,
    merkle: bool,
    known: Rc<dyn Fn(&Atom) -> Option<bool>>,
    f: impl Fn() -> T,
    stop: impl Fn(&[Atom], &Path<T>) -> bool,
) -> Exploration<T> {
    let st = Rc::new(RefCell::new(State::default()));
    let mut paths = vec![];
    let mut stack: Vec<Vec<bool>> = vec![vec![]];
    let mut complete = true;
    while let Some(prefix) = stack.pop() {
        if paths.len() >= max_paths {
            complete = false;
            break;
        }
        {
            let mut s = st.borrow_mut();
            s.prefix = prefix.clone();
            s.taken.clear();
        }
        let (s1, k1) = (st.clone(), known.clone());
        sym::set_decide(Some(Rc::new(move |v: &U256| {
            let a = Atom::Zero(*v);
            k1(&a).unwrap_or_else(|| s1.borrow_mut().decide(a))
        })));
        if merkle {
            let (s2, k2) = (st.clone(), known.clone());
            hooks::set_merkle(Some(Rc::new(move |q: &hooks::MerkleQuery| {
                let a = Atom::Merkle(norm(q.clone()));
                k2(&a).unwrap_or_else(|| s2.borrow_mut().decide(a))
            })));
        }
        let outcome = capture(&f);
        sym::set_decide(None);
        if merkle {
            hooks::set_merkle(None);
        }
        let s = st.borrow();
        let path = Path { literals: s.taken.clone(), outcome };
        report::with(|r| r.paths += 1);
        if stop(&s.atoms, &path) {
            paths.push(path);
            complete = false;
            break;
        }
        for k in (prefix.len()..s.taken.len()).rev() {
            let mut p: Vec<bool> = s.taken[..k].iter().map(|x| x.1).collect();
            p.push(!s.taken[k].1);
            stack.push(p);
        }
        paths.push(path);
    }
    let atoms = st.borrow().atoms.clone();
    Exploration { atoms, paths, complete }
}
