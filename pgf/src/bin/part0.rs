// Generated by tools/mkprimes.py.
#![allow(unused_imports)]
use mc_pgf::{fields::*, one};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    one::<F1<3>>();
    one::<F1<29>>();
    one::<F1<61>>();
    one::<F1<101>>();
    one::<F1<139>>();
    one::<F1<181>>();
    one::<F1<229>>();
    one::<F1<271>>();
    one::<F1<317>>();
    one::<F1<373>>();
    one::<F1<421>>();
    one::<F1<463>>();
    one::<F1<521>>();
    one::<F1<577>>();
    one::<F1<1093>>();
    one::<F1<1429>>();
    one::<F1<2861>>();
    one::<F1<3923>>();
    one::<F1<7481>>();
    one::<F1<14519>>();
    one::<F1<30941>>();
    one::<F1<92821>>();
    one::<F1<816817>>();
    one::<F1<455885431>>();
    one::<F1<962821861>>();
    one::<F1<8078310241>>();
    one::<F1<34880085241>>();
    one::<F1<53871057241>>();
    one::<F1<110654063521>>();
    one::<F1<559458209311>>();
    one::<F1<1008932654731>>();
    one::<F1<1392449718661>>();
    one::<F1<2096343459211>>();
    one::<F1<4240937260561>>();
    one::<F1<14058643388791>>();
    one::<F1<29105142005941>>();
    one::<F1<61493590278121>>();
    one::<F1<202050368056681>>();
    one::<F1<405332750552731>>();
    one::<F1<519414841952161>>();
    one::<F1<887907449869441>>();
    one::<F1<1377132771754741>>();
    one::<F1<2389730398044991>>();
    one::<F1<4025465025129241>>();
    one::<F1<6712025378856799>>();
    one::<F1<18726305435527691>>();
    one::<F1<693386350578511591>>();
    one::<F2<0x189, 0x4000000000000000>>();
    one::<F2<0x2d4e9, 0x4000000000000000>>();
    one::<F2<0x1550ae0ea83cb9, 0x4000000000000000>>();
    one::<F2<0x8983, 0x4000000000000000>>();
    one::<F4<0x149, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0x5b859c9, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0xfb1088b246de317, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0x39e9, 0x0, 0x0, 0x2000000000000000>>();
    one::<F3<0x3207, 0x0, 0x40000000000>>();
    one::<F5<0x1812d41, 0x0, 0x0, 0x0, 0x100000000000>>();
    one::<F6<0x37be6d8d, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
}
