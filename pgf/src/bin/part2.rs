// Generated by tools/mkprimes.py.
#![allow(unused_imports)]
use mc_pgf::{fields::*, one};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    one::<F1<7>>();
    one::<F1<37>>();
    one::<F1<71>>();
    one::<F1<107>>();
    one::<F1<151>>();
    one::<F1<193>>();
    one::<F1<239>>();
    one::<F1<281>>();
    one::<F1<337>>();
    one::<F1<383>>();
    one::<F1<433>>();
    one::<F1<479>>();
    one::<F1<541>>();
    one::<F1<593>>();
    one::<F1<1217>>();
    one::<F1<2081>>();
    one::<F1<3121>>();
    one::<F1<4421>>();
    one::<F1<8581>>();
    one::<F1<19163>>();
    one::<F1<42433>>();
    one::<F1<120121>>();
    one::<F1<4084081>>();
    one::<F1<601380781>>();
    one::<F1<1295163871>>();
    one::<F1<16508872381>>();
    one::<F1<37362184861>>();
    one::<F1<58857718921>>();
    one::<F1<153487894561>>();
    one::<F1<641062211791>>();
    one::<F1<1033107855781>>();
    one::<F1<1430083494841>>();
    one::<F1<3146501838481>>();
    one::<F1<5061763827121>>();
    one::<F1<18639186195631>>();
    one::<F1<32026343529181>>();
    one::<F1<93615465700681>>();
    one::<F1<275426554350949>>();
    one::<F1<439756683417481>>();
    one::<F1<665577683010241>>();
    one::<F1<964627563625441>>();
    one::<F1<1573866024862561>>();
    one::<F1<2887230086989249>>();
    one::<F1<4299928549569871>>();
    one::<F1<10075229991056231>>();
    one::<F1<34887363551120081>>();
    one::<F1<2013265921>>();
    one::<F2<0xd59, 0x4000000000000000>>();
    one::<F2<0x1203867, 0x4000000000000000>>();
    one::<F2<0x5d702ee5cfe727, 0x4000000000000000>>();
    one::<F2<0x131d, 0x4000000000000000>>();
    one::<F4<0x747b, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0x2bc95893, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0x47b26f071f0e43, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029>>();
    one::<F3<0x1d08d7, 0x0, 0x40000000000>>();
    one::<F6<0x3d5, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
    one::<F6<0x54c5193dd7b0f7, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
}
