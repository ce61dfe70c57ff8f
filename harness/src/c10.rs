//! C10: the prepared divider divides exactly.
use crate::sx;
use pokers::fastdivide::DividerU64;

fn same(d: u64) {
    let n = sx::range(0, u64::MAX);
    let p = DividerU64::divide_by(d);
    let q = p.divide(n);
    sx::check(q == n / d, 1);
    sx::observe(q);
    sx::reach(100);
}
/// divisors from param 0, param 1 of them, one at a time; every dividend
#[no_mangle]
pub extern "C" fn c10_each() {
    let lo = sx::param(0);
    let d = sx::conc(sx::range(lo, lo + (sx::param(1) - 1)));
    sx::shard(d);
    same(d);
}
/// divisors around powers of two and other special shapes
#[no_mangle]
pub extern "C" fn c10_special() {
    let k = sx::conc(sx::range(0, 63));
    sx::shard(k);
    let f = sx::conc(sx::range(0, 7));
    let p = 1u64 << k;
    let d = match f {
        0 => p,
        1 => p.wrapping_add(1),
        2 => p.wrapping_sub(1),
        3 => p.wrapping_add(p >> 1),
        4 => p.wrapping_add(p >> 1).wrapping_add(1),
        5 => p.wrapping_add(p / 3),
        6 => u64::MAX / p,
        _ => u64::MAX - p,
    };
    sx::assume(d != 0);
    same(d);
}
/// every divisor with its highest bit at param 0..param 1 that is not a power of two, symbolic; every dividend
#[no_mangle]
pub extern "C" fn c10_all() {
    sx::merge(false);
    let k = sx::conc(sx::range(sx::param(0), sx::param(1)));
    sx::shard(k);
    let p = 1u64 << k;
    let d = sx::range(p + 1, p + (p - 1));
    sx::assume(!d.is_power_of_two());
    let u = 1u128 << (64 + k);
    // arithmetic: only powers of two divide a power of two
    sx::assume(u % d as u128 != 0);
    same(d);
}
#[no_mangle]
pub extern "C" fn c10_op() {
    let d = sx::conc(sx::range(1, 64));
    let n = sx::range(0, u64::MAX);
    sx::check(n / DividerU64::divide_by(d) == n / d, 2);
    sx::observe(d);
}
