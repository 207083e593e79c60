//! Coverage-guided search for inputs of C12. The first byte says how to read
//! the rest. Panics inside the libraries do not stop the search; those of
//! twiggy itself do.
#![no_main]
#![feature(alloc_error_hook)]
use std::panic::{catch_unwind, AssertUnwindSafe};
use structopt::StructOpt;
use twiggy_opt::Options;

thread_local!(static PLACE: std::cell::RefCell<String> = Default::default());

fn own() -> bool {
    PLACE.with(|p| !p.borrow().contains("fuzz_targets") && !p.borrow().contains("/registry/") && !p.borrow().contains("/rustc/") && !p.borrow().contains("library/"))
}
fn file() -> std::path::PathBuf {
    std::path::PathBuf::from(format!("/dev/shm/vfuzz-{}", std::process::id()))
}
fn run(data: &[u8]) -> Result<(), ()> {
    let Some((how, bytes)) = data.split_first() else { return Ok(()) };
    let mut items = if how % 2 == 0 {
        twiggy_parser::parse(bytes).map_err(|_| ())?
    } else {
        std::fs::write(file(), bytes).unwrap();
        twiggy_parser::read_and_parse(file(), twiggy_traits::ParseMode::Dwarf).map_err(|_| ())?
    };
    if items.iter().count() > 500 {
        return Ok(());
    }
    for args in [&["top", "x", "--retained"][..], &["dominators", "x"], &["paths", "x", "-d", "2", "-r", "2"], &["monos", "x"], &["garbage", "x"]] {
        let o = Options::from_iter(std::iter::once("twiggy").chain(args.iter().copied()));
        let e = match o {
            Options::Top(ref o) => twiggy_analyze::top(&mut items, o),
            Options::Dominators(ref o) => twiggy_analyze::dominators(&mut items, o),
            Options::Paths(ref o) => twiggy_analyze::paths(&mut items, o),
            Options::Monos(ref o) => twiggy_analyze::monos(&mut items, o),
            Options::Garbage(ref o) => twiggy_analyze::garbage(&items, o),
            _ => unreachable!(),
        }
        .expect("an analysis fails");
        let mut v = vec![];
        e.emit_json(&items, &mut v).expect("output fails");
    }
    Ok(())
}

#[no_mangle]
pub extern "C" fn LLVMFuzzerInitialize(_: *mut i32, _: *mut *mut *mut u8) -> i32 {
    // Like the monitors: memory that cannot be had ends the input, not the search.
    std::alloc::set_alloc_error_hook(|l| panic!("memory allocation of {} bytes failed", l.size()));
    std::panic::set_hook(Box::new(|i| PLACE.with(|p| *p.borrow_mut() = format!("{:?} {}", i.location().map(|l| l.to_string()), i))));
    0
}
#[no_mangle]
pub unsafe extern "C" fn LLVMFuzzerTestOneInput(data: *const u8, size: usize) -> i32 {
    let data = if size == 0 { &[] } else { std::slice::from_raw_parts(data, size) };
    if catch_unwind(AssertUnwindSafe(|| run(data))).is_err() && own() {
        PLACE.with(|p| eprintln!("{}", p.borrow()));
        std::process::abort();
    }
    0
}
