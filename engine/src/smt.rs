//! One z3 process per query batch, SMT-LIB2 over a pipe.
use crate::report;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}
pub struct Solver {
    child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
    pub script: String,
    keep: bool,
}
impl Solver {
    pub fn new() -> Solver {
        Self::with_timeout(120)
    }
    pub fn with_timeout(seconds: u64) -> Solver {
        let bin = std::env::var("Z3").unwrap_or("z3".into());
        let mut child = Command::new(bin)
            .args(["-in", "-smt2", &format!("-t:{}", seconds * 1000)])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("z3 starts");
        let stdin = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Solver { child, stdin, out, script: String::new(), keep: true }
    }
    pub fn send(&mut self, s: &str) {
        if self.keep {
            self.script.push_str(s);
            self.script.push('\n');
        }
        self.stdin.write_all(s.as_bytes()).unwrap();
        self.stdin.write_all(b"\n").unwrap();
    }
    fn line(&mut self) -> String {
        self.stdin.flush().unwrap();
        let mut l = String::new();
        self.out.read_line(&mut l).unwrap();
        l.trim().to_string()
    }
    pub fn check(&mut self) -> Sat {
        let t = Instant::now();
        self.send("(check-sat)");
        let l = self.line();
        report::query(t);
        match l.as_str() {
            "sat" => Sat::Sat,
            "unsat" => Sat::Unsat,
            "unknown" | "timeout" => Sat::Unknown,
            other => panic!("SMT solver answered {:?}", other),
        }
    }
    /// Reads one balanced s-expression.
    fn sexpr(&mut self) -> String {
        self.stdin.flush().unwrap();
        let mut r = String::new();
        loop {
            let mut l = String::new();
            if self.out.read_line(&mut l).unwrap() == 0 {
                return r;
            }
            r.push_str(&l);
            let open = r.matches('(').count();
            if open == r.matches(')').count() && open > 0 {
                return r;
            }
        }
    }
    /// Values of Boolean constants.
    pub fn bools(&mut self, names: &[String]) -> Vec<bool> {
        if names.is_empty() {
            return vec![];
        }
        self.send(&format!("(get-value ({}))", names.join(" ")));
        let r = self.sexpr();
        names
            .iter()
            .map(|n| {
                let key = format!("({} ", n);
                let i = r.find(&key).expect("value of a constant") + key.len();
                r[i..].starts_with("true")
            })
            .collect()
    }
    pub fn raw_value(&mut self, name: &str) -> String {
        self.send(&format!("(get-value ({}))", name));
        self.sexpr()
    }
    pub fn push(&mut self) {
        self.send("(push 1)")
    }
    pub fn pop(&mut self) {
        self.send("(pop 1)")
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.stdin.write_all(b"(exit)\n");
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
