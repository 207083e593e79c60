// Sample: a Rust library with generics and trait objects.
#![no_std]
#![no_main]
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { loop {} }
static mut SINK: u32 = 0;
static GREETING: &str = "hello from the sample";
trait Shape { fn area(&self) -> u32; }
struct Sq(u32);
struct Rc(u32, u32);
impl Shape for Sq { #[inline(never)] fn area(&self) -> u32 { unsafe { SINK += 1; } self.0.wrapping_mul(self.0) } }
impl Shape for Rc { #[inline(never)] fn area(&self) -> u32 { unsafe { SINK += 2; } self.0.wrapping_mul(self.1) } }
#[inline(never)]
fn twice<T: Shape>(t: &T) -> u32 { t.area().wrapping_add(t.area()) }
#[inline(never)]
fn dynamic(s: &dyn Shape) -> u32 { s.area() }
#[inline(never)]
fn apply<F: Fn(u32) -> u32>(f: F, x: u32) -> u32 { f(f(x)) }
#[no_mangle]
pub extern "C" fn run(n: u32) -> u32 {
    let (a, b) = (Sq(n), Rc(n, 3));
    let shapes: [&dyn Shape; 2] = [&a, &b];
    let k = apply(|x| x.wrapping_add(n), 7).wrapping_add(apply(|x| x ^ n, 9));
    twice(&a).wrapping_add(twice(&b)).wrapping_add(dynamic(shapes[(n & 1) as usize])).wrapping_add(k).wrapping_add(u32::from(GREETING.as_bytes()[(n as usize) % GREETING.len()]))
}
#[no_mangle]
pub extern "C" fn _start() -> ! { let x = run(5); unsafe { SINK = x; } loop {} }
