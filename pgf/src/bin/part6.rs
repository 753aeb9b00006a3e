// Generated by tools/mkprimes.py.
#![allow(unused_imports)]
use mc_pgf::{fields::*, one};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    one::<F1<19>>();
    one::<F1<53>>();
    one::<F1<89>>();
    one::<F1<131>>();
    one::<F1<173>>();
    one::<F1<223>>();
    one::<F1<263>>();
    one::<F1<311>>();
    one::<F1<359>>();
    one::<F1<409>>();
    one::<F1<457>>();
    one::<F1<503>>();
    one::<F1<569>>();
    one::<F1<1031>>();
    one::<F1<1361>>();
    one::<F1<2689>>();
    one::<F1<3659>>();
    one::<F1<5237>>();
    one::<F1<12377>>();
    one::<F1<28289>>();
    one::<F1<74257>>();
    one::<F1<416263>>();
    one::<F1<151110961>>();
    one::<F1<868888021>>();
    one::<F1<2871108241>>();
    one::<F1<29920480591>>();
    one::<F1<50357727421>>();
    one::<F1<103437494161>>();
    one::<F1<401120980261>>();
    one::<F1<892828896961>>();
    one::<F1<1290563153881>>();
    one::<F1<1731153704281>>();
    one::<F1<3862925025961>>();
    one::<F1<11682992761441>>();
    one::<F1<22812138328981>>();
    one::<F1<49649948127781>>();
    one::<F1<175020218483881>>();
    one::<F1<352101230120641>>();
    one::<F1<500775553365361>>();
    one::<F1<827368305560161>>();
    one::<F1<1245977269682861>>();
    one::<F1<2033391057414991>>();
    one::<F1<3931273109516611>>();
    one::<F1<5436991722252481>>();
    one::<F1<17779137194320811>>();
    one::<F1<87841397512641631>>();
    one::<F2<0x6d, 0x4000000000000000>>();
    one::<F2<0x76851, 0x4000000000000000>>();
    one::<F2<0x38d69c47cd, 0x4000000000000000>>();
    one::<F2<0x18d, 0x4000000000000000>>();
    one::<F4<0x20f, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0x8fa1af, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0x2298615fb692391, 0x0, 0x0, 0x2000000000000000>>();
    one::<F4<0x4eb1, 0x0, 0x0, 0x2000000000000000>>();
    one::<F3<0x87, 0x0, 0x40000000000>>();
    one::<F5<0x98fd, 0x0, 0x0, 0x0, 0x100000000000>>();
    one::<F6<0x1a0af9f, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
    one::<F6<0x111c1, 0x0, 0x0, 0x0, 0x0, 0x1000000000000000>>();
}
