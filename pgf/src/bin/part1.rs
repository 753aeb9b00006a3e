// Generated by tools/mkprimes.py.
#![allow(unused_imports)]
use mc_pgf::{fields::*, one};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    one::<F1<5>>();
    one::<F1<31>>();
    one::<F1<67>>();
    one::<F1<103>>();
    one::<F1<149>>();
    one::<F1<191>>();
    one::<F1<233>>();
    one::<F1<277>>();
    one::<F1<331>>();
    one::<F1<379>>();
    one::<F1<431>>();
    one::<F1<467>>();
    one::<F1<523>>();
    one::<F1<587>>();
    one::<F1<1163>>();
    one::<F1<1831>>();
    one::<F1<3083>>();
    one::<F1<4271>>();
    one::<F1<8009>>();
    one::<F1<14561>>();
    one::<F1<36191>>();
    one::<F1<97241>>();
    one::<F1<2824823>>();
    one::<F1<562582021>>();
    one::<F1<1171109941>>();
    one::<F1<12995542561>>();
    one::<F1<36587230681>>();
    one::<F1<58567749241>>();
    one::<F1<135848753041>>();
    one::<F1<579430381531>>();
    one::<F1<1023550087561>>();
    one::<F1<1419763024681>>();
    one::<F1<2379062365681>>();
    one::<F1<4632910922641>>();
    one::<F1<16445960190661>>();
    one::<F1<29682952539241>>();
    one::<F1<75080409363961>>();
    one::<F1<235725429399461>>();
    one::<F1<435185408122081>>();
    one::<F1<555236555190241>>();
    one::<F1<902259402184141>>();
    one::<F1<1458705096214081>>();
    one::<F1<2434002108217681>>();
    one::<F1<4184364960331711>>();
    one::<F1<9388805190963199>>();
    one::<F1<19835154277048111>>();
    one::<F1<2147483647>>();
    one::<F2<0xae3, 0x4000000>>();
    one::<F2<0x3757311, 0x4000000>>();
    one::<F2<0x43a778847fcd6a3, 0x4000000>>();
    one::<F2<0xc39, 0x4000000>>();
    one::<F4<0xa72b, 0x0, 0x0, 0x100>>();
    one::<F4<0xa429023, 0x0, 0x0, 0x100>>();
    one::<F4<0xac953cdf085247, 0x0, 0x0, 0x100>>();
    one::<F4<0xa11800000000001, 0x59aa76fed0000001, 0x60b44d1e5c37b001, 0x12ab655e9a2ca556>>();
    one::<F3<0x1be1, 0x0, 0x40000000000>>();
    one::<F6<0x7f, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
    one::<F6<0x30f11534535, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
}
