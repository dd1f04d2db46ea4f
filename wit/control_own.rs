// Control for the hermeticity rules: a line marked `//~ rule` must be reported under that rule,
// and nothing else may be.
#![allow(warnings)]
use std::collections::*;

pub mod parser {
    pub struct Pomelo {
        pub verbose: bool,
        pub other: bool,
        pub n: usize,
    }
    pub enum Decl {
        Verbose,
        Other(u8),
    }
}
use parser::*;

impl Pomelo {
    pub fn new() -> Pomelo {
        Pomelo { verbose: false, other: false, n: 0 }
    }
    pub fn decl(&mut self, d: Decl) {
        match d {
            Decl::Verbose => {
                self.verbose = true;
                self.other = true;
            }
            Decl::Other(k) => {
                self.n += k as usize;
                self.other = k > 3;
            }
        }
    }
    pub fn print_ok(&self) {
        if self.verbose {
            println!("a");
        }
    }
    pub fn print_ok_early(&self) {
        if !self.verbose {
            return;
        }
        println!("a");
        self.helper_ok();
    }
    fn helper_ok(&self) {
        for i in 0..self.n {
            println!("{i}");
        }
    }
    pub fn print_ok_and(&self) {
        let v = self.verbose;
        if self.n > 2 && v {
            eprintln!("a");
        }
        if v || self.n > 4 {
            let mut s = 0;
            for i in 0..self.n {
                s += i;
            }
            if v {
                println!("{s}");
            }
        }
    }
    pub fn print_bad(&self) {
        println!("a"); //~ print
    }
    pub fn print_bad_other(&self) {
        if self.other {
            println!("a"); //~ print
        }
    }
    pub fn print_bad_or(&self) {
        if self.verbose || self.n > 0 {
            println!("a"); //~ print
        }
    }
    pub fn print_bad_not(&self) {
        if !self.verbose {
            eprintln!("a"); //~ print
        }
    }
    pub fn print_bad_late(&mut self) {
        if self.n > 3 {
            self.helper_bad();
        }
        if self.verbose {
            self.helper_bad();
        }
    }
    fn helper_bad(&self) {
        println!("x"); //~ print
    }
    pub fn print_ok_tuple(&self) -> u8 {
        match (self.n, self.verbose) {
            (0, false) => 1,
            (0, true) => {
                println!("a");
                2
            }
            _ => 3,
        }
    }
    pub fn print_bad_tuple(&self) -> u8 {
        match (self.n, self.verbose) {
            (0, true) => 1,
            (0, false) => {
                println!("a"); //~ print
                2
            }
            _ => 3,
        }
    }
    pub fn print_ok_param(&self) {
        show_ok(3, self.verbose);
        let v = self.verbose && self.n > 2;
        show_ok(4, v);
    }
    pub fn print_bad_param(&self) {
        show_bad(3, self.verbose);
        show_bad(3, self.other);
    }
    pub fn print_ok_then(&self) {
        self.verbose.then(|| println!("x"));
        if let Some(n) = self.verbose.then(|| self.n) {
            println!("{n}");
        }
        let f = || {
            if self.verbose {
                println!("y");
            }
        };
        f();
        let loud = self.verbose & (self.n > 3);
        if loud == true {
            println!("z");
        }
    }
    pub fn print_ok_stdout(&self) {
        use std::io::Write;
        if self.verbose {
            let mut o = std::io::stdout().lock();
            let _ = writeln!(o, "x");
        }
    }
    pub fn print_bad_stdout(&self) {
        use std::io::Write;
        if self.other {
            let _ = writeln!(std::io::stderr(), "x"); //~ print
        }
    }
    pub fn print_bad_then(&self) {
        self.other.then(|| println!("x")); //~ print
        if let None = self.verbose.then(|| self.n) {
            println!("n"); //~ print
        }
        let loud = self.verbose | (self.n > 3);
        if loud {
            println!("z"); //~ print
        }
        let loud = self.verbose != self.other;
        if loud {
            println!("z"); //~ print
        }
    }
}

fn show_ok(n: u8, loud: bool) {
    if n > 2 && loud {
        println!("{n}");
    }
}
fn show_bad(n: u8, loud: bool) {
    if n > 2 && loud {
        println!("{n}"); //~ print
    }
}

// ---- effects
pub fn eff_env() -> bool {
    std::env::var("X").is_ok() //~ effect
}
pub fn eff_env_value() -> Vec<Option<String>> {
    ["A"].iter().map(std::env::var_os::<&&str>).map(|x| x.map(|_| String::new())).collect() //~ effect
}
pub fn eff_args() -> usize {
    std::env::args().count() //~ effect
}
pub fn eff_fs() -> usize {
    std::fs::read("/x").map(|v| v.len()).unwrap_or(0) //~ effect
}
pub fn eff_file() {
    let _ = std::fs::File::create("/x"); //~ effect
}
pub fn eff_exists() -> bool {
    std::path::Path::new("/x").exists() //~ effect
}
pub fn eff_time() -> bool {
    std::time::Instant::now().elapsed().as_nanos() > 3 //~ effect
}
pub fn eff_process() {
    std::process::exit(1); //~ effect
}
pub fn eff_thread() {
    std::thread::spawn(|| ()); //~ effect
}
pub fn eff_stdin() {
    let mut s = String::new();
    std::io::stdin().read_line(&mut s); //~ effect
}
pub fn eff_stdout() {
    use std::io::Write;
    std::io::stdout().flush(); //~ print
}
pub fn eff_random() -> u64 {
    use std::hash::*;
    let s = RandomState::new(); //~ effect
    s.hash_one(3u8) //~ effect
}
pub fn ok_hasher() -> u64 {
    use std::hash::*;
    let mut h = DefaultHasher::new();
    h.write_u8(1);
    h.finish()
}
pub fn ok_path() -> Option<String> {
    std::path::Path::new("/x").extension().map(|x| x.to_string_lossy().into_owned())
}

// ---- state
static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); //~ state
static mut RAW: usize = 0; //~ state
static CACHE: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new()); //~ state
static OK_NAMES: [&str; 2] = ["a", "b"];
const OK_CONST: usize = 3;
pub fn st_count() -> usize {
    COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}
pub fn st_local() -> usize {
    static INNER: std::sync::OnceLock<usize> = std::sync::OnceLock::new(); //~ state
    *INNER.get_or_init(|| 1)
}

// ---- addresses
pub fn ad_cast(x: &u8) -> usize {
    x as *const u8 as usize //~ address
}
pub fn ad_fmt(x: &u8) -> String {
    format!("{:p}", x) //~ address
}
pub fn ad_dbg(x: &u8) -> String {
    format!("{:?}", x as *const u8) //~ debug
}
pub fn ad_hash(x: &u8) -> u64 {
    use std::hash::*;
    let mut h = DefaultHasher::new();
    (x as *const u8).hash(&mut h); //~ address
    h.finish()
}
pub fn ad_set(x: &'static u8) -> BTreeSet<*const u8> {
    let mut s = BTreeSet::new(); //~ address
    s.insert(x as *const u8); //~ address
    s
}

// ---- debug output
pub struct Wrap {
    pub m: HashMap<u8, u8>,
}
impl std::fmt::Debug for Wrap {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
pub fn db_map(m: &HashMap<u8, u8>) -> String {
    format!("{:?}", m) //~ debug
}
pub fn db_nested(m: &[Option<HashSet<u8>>]) -> String {
    format!("{:?}", m) //~ debug
}
pub fn ok_debug(m: &BTreeMap<u8, Vec<String>>) -> String {
    format!("{:?} {:?}", m, "x")
}

// ---- order
pub fn or_return(m: &HashMap<u8, u8>) -> Vec<u8> {
    m.keys().copied().collect()
} //~ order
pub fn or_loop(m: HashSet<u8>) -> String {
    let mut s = String::new();
    for x in &m {
        s.push_str(&x.to_string());
    }
    s
} //~ order
pub fn or_counter(m: HashSet<u8>, out: &mut Vec<u8>) {
    for x in m {
        out.push(x); //~ order
    }
}
pub fn or_assign(m: &HashMap<u8, usize>) -> usize {
    let mut last = 0;
    for (_, v) in m.iter() {
        last = *v; //~ order
    }
    last
}
pub fn or_index(m: &mut HashMap<u8, usize>) {
    let mut n = 0;
    for v in m.values_mut().enumerate() { //~ order
        *v.1 = n;
        n += 1;
    }
}
pub fn or_find(m: &HashMap<u8, usize>) -> Option<u8> {
    m.iter().find(|x| *x.1 > 3).map(|x| *x.0) //~ order
}
pub fn or_first(m: &HashMap<u8, usize>) -> Option<u8> {
    m.keys().next().copied() //~ order
}
pub fn or_pass(m: &HashMap<u8, usize>) {
    take(m.keys().copied().collect()); //~ order
}
fn take(v: Vec<u8>) {}
pub fn or_extend(m: HashSet<u8>) -> Vec<u8> {
    let mut v = vec![1];
    v.extend(m);
    v
} //~ order
pub fn or_break(m: &HashSet<u8>) -> Option<u8> {
    for x in m {
        if *x > 3 { //~ order
            return Some(*x);
        }
    }
    None
}
pub fn or_for_each(m: &HashSet<u8>, out: &mut Vec<u8>) {
    m.iter().for_each(|x| out.push(*x)); //~ order
}
pub fn or_drain(m: &mut HashMap<u8, String>) -> String {
    m.drain().map(|x| x.1).collect::<Vec<_>>().join(",") //~ order
}
pub fn or_store(p: &mut Vec<u8>, m: &HashSet<u8>) {
    *p = m.iter().copied().collect(); //~ order
}
pub fn or_sort_len(m: &HashMap<String, u8>) -> Vec<&String> {
    let mut v: Vec<&String> = m.keys().collect();
    v.sort_by_key(|x| x.to_string().len()); //~ order
    v
}
pub fn or_sort_mod(m: &HashMap<u8, u8>) -> Vec<(u8, u8)> {
    let mut v: Vec<_> = m.iter().map(|(a, b)| (*a, *b)).collect();
    v.sort_unstable_by_key(|x| (x.0 % 7, x.1 / 2)); //~ order
    v
}
pub fn or_sort_by(m: &HashSet<String>) -> Vec<&String> {
    let mut v: Vec<_> = m.iter().collect();
    v.sort_by(|a, b| a.len().cmp(&b.len())); //~ order
    v
}
fn size_of_name(x: &&String) -> usize {
    x.trim().len() + 1
}
pub fn or_sort_fn(m: &HashSet<String>) -> Vec<&String> {
    let mut v: Vec<_> = m.iter().collect();
    v.sort_by_cached_key(size_of_name); //~ order
    v
}
pub fn ok_sort_pair(m: &HashSet<String>) -> Vec<&String> {
    let mut v: Vec<_> = m.iter().collect();
    v.sort_by_key(|x| (x.len(), x.to_string()));
    v
}
pub fn ok_sort_then(m: &HashSet<String>) -> Vec<&String> {
    let mut v: Vec<_> = m.iter().collect();
    v.sort_by(|a, b| a.len().cmp(&b.len()).then_with(|| b.cmp(a)));
    v
}
pub fn ok_sort_rev(m: &HashMap<String, usize>) -> Vec<(&String, &usize)> {
    let mut v: Vec<_> = m.iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(*x.1 + 1));
    v
}
pub fn or_heap(m: BinaryHeap<u8>) -> Vec<u8> {
    m.into_iter().collect()
} //~ order

pub fn ok_sort(m: &HashMap<u8, u8>) -> Vec<u8> {
    let mut v: Vec<u8> = m.keys().copied().collect();
    v.sort();
    v
}
pub fn ok_sort_by(m: HashMap<u8, usize>) -> Vec<(u8, usize)> {
    let mut v = m.into_iter().collect::<Vec<_>>();
    v.sort_unstable_by_key(|x| x.1);
    v.into_iter().rev().collect()
}
pub fn ok_tree(m: &HashMap<u8, u8>) -> Vec<u8> {
    let t: BTreeSet<u8> = m.values().copied().collect();
    t.into_iter().collect()
}
pub fn ok_lookup(m: &HashMap<u8, u8>) -> Vec<u8> {
    (0..9).filter_map(|x| m.get(&x).copied()).collect()
}
pub fn ok_sum(m: &HashMap<u8, usize>) -> usize {
    let mut n = 0;
    for (_, v) in m {
        n += v;
    }
    for v in m.values() {
        n |= v;
    }
    n + m.values().sum::<usize>() + m.len()
}
pub fn ok_insert(m: &HashMap<u8, usize>) -> Vec<(usize, u8)> {
    let mut t = BTreeMap::new();
    for (k, v) in m {
        t.insert(*v, *k);
    }
    t.into_iter().collect()
}
pub fn ok_build(v: &[u8]) -> Vec<usize> {
    let mut m = HashMap::new();
    let mut out = vec![];
    for x in v {
        let n = m.len();
        out.push(*m.entry(*x).or_insert(n));
    }
    out
}
pub fn ok_any(m: &HashSet<u8>) -> bool {
    m.iter().any(|x| *x > 3) && m.contains(&2)
}
pub fn ok_move(m: HashMap<u8, u8>) -> HashMap<u8, u8> {
    m.into_iter().map(|(k, v)| (v, k)).collect()
}
pub fn ok_loop_sort(m: &HashSet<u8>) -> Vec<u8> {
    let mut v = Vec::new();
    for x in m.iter() {
        if *x > 1 {
            v.push(*x);
        }
    }
    v.sort_by(|a, b| b.cmp(a));
    v
}
