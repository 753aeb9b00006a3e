// Generated by tools/mkprimes.py.
#![allow(unused_imports)]
use mc_pgf::{fields::*, one};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    one::<F1<13>>();
    one::<F1<43>>();
    one::<F1<79>>();
    one::<F1<113>>();
    one::<F1<163>>();
    one::<F1<199>>();
    one::<F1<251>>();
    one::<F1<293>>();
    one::<F1<349>>();
    one::<F1<397>>();
    one::<F1<443>>();
    one::<F1<491>>();
    one::<F1<557>>();
    one::<F1<1019>>();
    one::<F1<1249>>();
    one::<F1<2381>>();
    one::<F1<3433>>();
    one::<F1<5003>>();
    one::<F1<10739>>();
    one::<F1<21841>>();
    one::<F1<52361>>();
    one::<F1<212161>>();
    one::<F1<41861821>>();
    one::<F1<795374581>>();
    one::<F1<1800058261>>();
    one::<F1<21570579031>>();
    one::<F1<38282634391>>();
    one::<F1<82802679961>>();
    one::<F1<266408622481>>();
    one::<F1<835227032641>>();
    one::<F1<1083503360941>>();
    one::<F1<1479857198821>>();
    one::<F1<3649178573041>>();
    one::<F1<8258667296881>>();
    one::<F1<21034097854771>>();
    one::<F1<39258098519641>>();
    one::<F1<134354416756561>>();
    one::<F1<297758437136161>>();
    one::<F1<479002703219041>>();
    one::<F1<747586361809717>>();
    one::<F1<1119380648699041>>();
    one::<F1<1769508738873331>>();
    one::<F1<3225052793388427>>();
    one::<F1<4766587461926291>>();
    one::<F1<12164672817166871>>();
    one::<F1<46944025954815991>>();
    one::<F1<4611686018427387847>>();
    one::<F2<0x83d3, 0x4000000000000000>>();
    one::<F2<0x4af9f6d, 0x4000000000000000>>();
    one::<F2<0x18f7e32fb4e35, 0x4000000000000000>>();
    one::<F4<0x13b, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0xe339f, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0x144de5aaab7, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0x27, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff>>();
    one::<F5<0x579, 0x0, 0x0, 0x0, 0x100000000000>>();
    one::<F6<0xc21, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
    one::<F6<0x12335531010123, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
}
