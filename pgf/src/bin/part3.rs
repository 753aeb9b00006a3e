// Generated by tools/mkprimes.py.
#![allow(unused_imports)]
use mc_pgf::{fields::*, one};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    one::<F1<11>>();
    one::<F1<41>>();
    one::<F1<73>>();
    one::<F1<109>>();
    one::<F1<157>>();
    one::<F1<197>>();
    one::<F1<241>>();
    one::<F1<283>>();
    one::<F1<347>>();
    one::<F1<389>>();
    one::<F1<439>>();
    one::<F1<487>>();
    one::<F1<547>>();
    one::<F1<599>>();
    one::<F1<1223>>();
    one::<F1<2113>>();
    one::<F1<3361>>();
    one::<F1<4621>>();
    one::<F1<9857>>();
    one::<F1<20021>>();
    one::<F1<48049>>();
    one::<F1<145861>>();
    one::<F1<31651621>>();
    one::<F1<681020341>>();
    one::<F1<1548887341>>();
    one::<F1<17528871361>>();
    one::<F1<37633776181>>();
    one::<F1<78939140281>>();
    one::<F1<250427617441>>();
    one::<F1<781130329981>>();
    one::<F1<1050920060191>>();
    one::<F1<1437367451521>>();
    one::<F1<3413747697361>>();
    one::<F1<5133766157521>>();
    one::<F1<19210221750721>>();
    one::<F1<39228669660181>>();
    one::<F1<110636459464441>>();
    one::<F1<287533216080661>>();
    one::<F1<475736775697093>>();
    one::<F1<695429173776481>>();
    one::<F1<1021093567349857>>();
    one::<F1<1701822612249761>>();
    one::<F1<3033683787053921>>();
    one::<F1<4757367756970921>>();
    one::<F1<11875121824131259>>();
    one::<F1<37266047429605541>>();
    one::<F1<2305843009213693951>>();
    one::<F2<0x3789, 0x4000000>>();
    one::<F2<0x1431d1e5, 0x4000000>>();
    one::<F2<0x264dce458fbe27, 0x4000000>>();
    one::<F4<0x403, 0x0, 0x0, 0x100>>();
    one::<F4<0x1af4f, 0x0, 0x0, 0x100>>();
    one::<F4<0x35598fe5fb, 0x0, 0x0, 0x100>>();
    one::<F4<0x4e7, 0x0, 0x0, 0x100>>();
    one::<F4<0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48>>();
    one::<F5<0x9d, 0x0, 0x0, 0x0, 0x100000000000>>();
    one::<F6<0xda7, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
    one::<F6<0x5e69104b7ed9abc9, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
}
