//! Runs a harness entry natively on a concrete model: `replay ENTRY MODEL [ARGS...]`.
//! The model file has lines `key value`; absent keys are 0.

use std::{
    alloc::{
        GlobalAlloc,
        Layout,
        System,
    },
    collections::HashMap,
    sync::{
        atomic::{
            AtomicU64,
            Ordering::SeqCst,
        },
        Mutex,
    },
};

struct Counting;
static HEAP: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Counting
{
    unsafe fn alloc(
        &self,
        l: Layout,
    ) -> *mut u8
    {
        HEAP.fetch_add(l.size() as u64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(
        &self,
        p: *mut u8,
        l: Layout,
    )
    {
        HEAP.fetch_sub(l.size() as u64, SeqCst);
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Counting = Counting;

static MODEL: Mutex<Option<HashMap<u64, u128>>> = Mutex::new(None);
static OUT: Mutex<String> = Mutex::new(String::new());

fn get(k: u64) -> u128
{
    let m = MODEL.lock().unwrap();
    m.as_ref().unwrap().get(&k).copied().unwrap_or(0)
}

#[no_mangle]
pub extern "C" fn lsx_var(
    k: u64,
    bits: u64,
) -> u64
{
    let v = get(k) as u64;
    if bits < 64 {
        v & ((1 << bits) - 1)
    }
    else {
        v
    }
}
#[no_mangle]
pub extern "C" fn lsx_choose(
    k: u64,
    n: u64,
) -> u64
{
    let v = get(k) as u64;
    if v >= n {
        0
    }
    else {
        v
    }
}
#[no_mangle]
pub extern "C" fn lsx_range(
    k: u64,
    n: u64,
) -> u64
{
    let v = get(k) as u64;
    if v >= n {
        println!("LSX-OUT-OF-RANGE {} {} {}", k, v, n);
        std::process::exit(5);
    }
    v
}
#[no_mangle]
pub extern "C" fn lsx_conc(v: u64) -> u64
{
    v
}
#[no_mangle]
pub extern "C" fn lsx_assume(c: bool)
{
    if !c {
        flush();
        println!("LSX-ASSUME-FALSE");
        std::process::exit(4);
    }
}
#[no_mangle]
pub extern "C" fn lsx_check(
    c: bool,
    code: u64,
)
{
    if !c {
        flush();
        println!("LSX-ASSERT {}", code);
        std::process::exit(3);
    }
}
#[no_mangle]
pub extern "C" fn lsx_cover(_code: u64) {}
#[no_mangle]
pub extern "C" fn lsx_emit(
    tag: u64,
    v: u64,
)
{
    // not counted as allocation of the code under test
    let before = HEAP.load(SeqCst);
    OUT.lock().unwrap().push_str(&format!("EMIT {} {}\n", tag, v));
    HEAP.store(before, SeqCst);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn lsx_sp() -> u64
{
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as u64
}
#[no_mangle]
pub extern "C" fn lsx_heap() -> u64
{
    HEAP.load(SeqCst)
}
#[no_mangle]
pub extern "C" fn lsx_ite(
    c: bool,
    a: u64,
    b: u64,
) -> u64
{
    if c {
        a
    }
    else {
        b
    }
}
#[no_mangle]
pub extern "C" fn lsx_limit(_n: u64) {}
#[no_mangle]
pub extern "C" fn lsx_any_products() {}
#[no_mangle]
pub extern "C" fn lsx_tries() -> u64
{
    if std::env::var("LSX_SAMPLE").is_ok_and(|s| !s.is_empty()) {
        1 << 63 | 1000
    }
    else {
        3_000_000
    }
}
#[no_mangle]
pub extern "C" fn lsx_end() -> !
{
    flush();
    println!("LSX-END");
    std::process::exit(0)
}

fn flush()
{
    print!("{}", OUT.lock().unwrap());
}

fn main()
{
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[2]).unwrap();
    let mut m = HashMap::new();
    for l in text.lines() {
        let mut it = l.split_whitespace();
        if let (Some(k), Some(v)) = (it.next(), it.next()) {
            if let (Ok(k), Ok(v)) = (k.parse::<u64>(), v.parse::<u128>()) {
                m.insert(k, v);
            }
        }
    }
    *MODEL.lock().unwrap() = Some(m);
    let entry = args[1].clone();
    let a: Vec<u64> = args[3 ..].iter().map(|s| s.parse().unwrap()).collect();
    // The same size of call-stack as the symbolic executor has.
    let h = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            if !harness::call(&entry, &a) {
                println!("no entry {}", entry);
                std::process::exit(9);
            }
        })
        .unwrap();
    h.join().unwrap();
    flush();
    println!("LSX-DONE");
}
