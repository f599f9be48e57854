//! Replays one harness on concrete values against the real build of bytedata.
//!
//! usage: replay <module::harness> <hex bytes>
//! exit 0: the harness passed; 101: a check failed or the code panicked; 77: the values do not meet
//! the harness's assumptions; a signal or a sanitizer's status: memory error.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicIsize, Ordering};

/// Counts live blocks, and checks that each is freed with the layout it was allocated with and that
/// nothing was written just outside it. Inactive under the address sanitizer, which does its own.
struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
const RED: usize = 64;

fn fatal(m: &str) -> ! {
    // no allocation here
    use std::io::Write;
    let _ = std::io::stderr().write_all(m.as_bytes());
    std::process::abort()
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Ordering::Relaxed);
        #[cfg(bdv_asan)]
        return System.alloc(l);
        #[cfg(not(bdv_asan))]
        {
            let pre = RED.max(l.align());
            let Ok(big) = Layout::from_size_align(l.size() + pre + RED, l.align().max(16)) else {
                return core::ptr::null_mut();
            };
            let p = System.alloc(big);
            if p.is_null() {
                return p;
            }
            core::ptr::write_bytes(p, 0xA5, big.size());
            let u = p.add(pre);
            (u.sub(16) as *mut usize).write_unaligned(l.size());
            (u.sub(8) as *mut usize).write_unaligned(l.align() ^ 0x5555_0000_5555_0000);
            u
        }
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Ordering::Relaxed);
        #[cfg(bdv_asan)]
        return System.dealloc(u, l);
        #[cfg(not(bdv_asan))]
        {
            let size = (u.sub(16) as *const usize).read_unaligned();
            let tag = (u.sub(8) as *const usize).read_unaligned();
            if tag == 0xDEAD_DEAD_DEAD_DEAD {
                fatal("MEMORY: block freed twice\n");
            }
            if tag != l.align() ^ 0x5555_0000_5555_0000 || size != l.size() {
                fatal("MEMORY: block freed with a wrong layout, or header overwritten\n");
            }
            let pre = RED.max(l.align());
            for i in 0..RED {
                if *u.add(size + i) != 0xA5 {
                    fatal("MEMORY: write past the end of a block\n");
                }
            }
            // keep freed blocks unmapped from reuse: a late reader sees poison, a second free is seen
            core::ptr::write_bytes(u, 0xDD, size);
            (u.sub(8) as *mut usize).write_unaligned(0xDEAD_DEAD_DEAD_DEAD);
            let _ = pre;
        }
    }
}

#[global_allocator]
static A: Counting = Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let f = bdv::h::find(&args[1]).expect("unknown harness");
    let hex = args.get(2).map(String::as_str).unwrap_or("");
    let v: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    // touch the machinery once, so that its own lazy allocations are not counted
    bdv::sym::native::load(v);
    bdv::sym::native::REACHED.with(|r| *r.borrow_mut() = false);
    let refusing = args[1].contains("::rej_");
    if refusing {
        std::panic::set_hook(Box::new(|i| {
            let s = i.to_string();
            if s.contains("VIOL ") {
                eprintln!("{s}");
            }
        }));
    }
    let before = LIVE.load(Ordering::Relaxed);
    f();
    let after = LIVE.load(Ordering::Relaxed);
    if !refusing && after != before {
        eprintln!("LEAK: {} block(s) still allocated", after - before);
        std::process::exit(101);
    }
    let reached = bdv::sym::native::REACHED.with(|r| *r.borrow());
    println!("ok reached={reached}");
}
