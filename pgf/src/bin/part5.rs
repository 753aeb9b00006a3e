// Generated by tools/mkprimes.py.
#![allow(unused_imports)]
use mc_pgf::{fields::*, one};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    one::<F1<17>>();
    one::<F1<47>>();
    one::<F1<83>>();
    one::<F1<127>>();
    one::<F1<167>>();
    one::<F1<211>>();
    one::<F1<257>>();
    one::<F1<307>>();
    one::<F1<353>>();
    one::<F1<401>>();
    one::<F1<449>>();
    one::<F1<499>>();
    one::<F1<563>>();
    one::<F1<1021>>();
    one::<F1<1321>>();
    one::<F1<2687>>();
    one::<F1<3539>>();
    one::<F1<5171>>();
    one::<F1<11969>>();
    one::<F1<22441>>();
    one::<F1<59467>>();
    one::<F1<257687>>();
    one::<F1<59219161>>();
    one::<F1<834173341>>();
    one::<F1<2722039321>>();
    one::<F1<28528830331>>();
    one::<F1<48015507541>>();
    one::<F1<92263451281>>();
    one::<F1<333048555841>>();
    one::<F1<880500590971>>();
    one::<F1<1134204151081>>();
    one::<F1<1531849579261>>();
    one::<F1<3830058392161>>();
    one::<F1<8834853387361>>();
    one::<F1<22122694063471>>();
    one::<F1<44423637798541>>();
    one::<F1<141435257639677>>();
    one::<F1<325037548612921>>();
    one::<F1<493095254682031>>();
    one::<F1<780468067308931>>();
    one::<F1<1163140857969091>>();
    one::<F1<1927554177393391>>();
    one::<F1<3780951484600291>>();
    one::<F1<5105467836749281>>();
    one::<F1<13954945420448033>>();
    one::<F1<64276175238204931>>();
    one::<F2<0x163, 0x4000000>>();
    one::<F2<0xa15b, 0x4000000>>();
    one::<F2<0x3a210e8a09, 0x4000000>>();
    one::<F2<0x5a7, 0x4000000>>();
    one::<F4<0x5df, 0x0, 0x0, 0x100>>();
    one::<F4<0x368643, 0x0, 0x0, 0x100>>();
    one::<F4<0x8e16110e04c77, 0x0, 0x0, 0x100>>();
    one::<F4<0x1991b, 0x0, 0x0, 0x100>>();
    one::<F3<0x4f, 0x0, 0x40000000000>>();
    one::<F5<0x2a21, 0x0, 0x0, 0x0, 0x100000000000>>();
    one::<F6<0x737d, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
    one::<F6<0xdb1, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
}
