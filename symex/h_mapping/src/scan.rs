//! C32: where the beams of a scan point.
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::MappingError as E;
use multicalc::mapping::ScanGeometry;

fn build<S: Sc>(cx: &mut Cx<S>) {
    let (fov, max, min) = (cx.any("fov"), cx.any("max"), cx.any("min"));
    let g = ScanGeometry::<3, S>::try_new(fov, max);
    cx.holds("one beam", ScanGeometry::<1, S>::try_new(fov, max).err() == Some(E::TooFewBeams));
    cx.holds("no beam", ScanGeometry::<0, S>::try_new(fov, max).err() == Some(E::TooFewBeams));
    if !fov.is_finite() || !max.is_finite() {
        cx.holds("non-finite", g.err() == Some(E::NonFinite));
    } else if cx.ask(or(vec![le(fov, S::ZERO), lt(S::TWO_PI, fov)])) {
        cx.holds("arc", g.err() == Some(E::InvalidFieldOfView));
    } else if cx.ask(le(max, S::ZERO)) {
        cx.holds("range", g.err() == Some(E::NonPositiveRange));
    } else {
        let g = g.unwrap();
        cx.eq("fov", g.field_of_view(), fov);
        cx.eq("max", g.maximum_range(), max);
        cx.eq("no blind spot", g.minimum_range(), S::ZERO);
        let m = g.with_minimum_range(min);
        if !min.is_finite() {
            cx.holds("non-finite blind spot", m.err() == Some(E::NonFinite));
        } else if cx.ask(or(vec![lt(min, S::ZERO), le(max, min)])) {
            cx.holds("blind spot refused", m.err() == Some(E::InvalidRangeLimits));
        } else {
            let m = m.unwrap();
            cx.eq("min", m.minimum_range(), min);
            cx.eq("fov kept", m.field_of_view(), fov);
            cx.eq("max kept", m.maximum_range(), max);
        }
    }
}
fn valid<S: Sc>(cx: &mut Cx<S>) {
    let (max, min, r) = (cx.pos("max"), cx.nonneg("min"), cx.any("r"));
    cx.assume(lt(min, max));
    let g = ScanGeometry::<4, S>::try_new(S::ONE, max).unwrap().with_minimum_range(min).unwrap();
    let want = r.is_finite() && cx.ask(and(vec![le(min, r), le(r, max)]));
    cx.holds("a reading counts exactly between the limits", g.range_is_valid(r) == want);
}
fn beams<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let fov = cx.var_open("fov", 0.0, 6.283185);
    let g = ScanGeometry::<N, S>::try_new(fov, S::TWO).unwrap();
    cx.holds("count", g.num_beams() == N);
    cx.eq("gap", g.angle_increment() * S::from_usize(N - 1), fov);
    for i in 0..N {
        let a = g.beam_angle(i).unwrap();
        cx.eq("beam", a, fov * S::rat(2 * i as i64 - (N as i64 - 1), 2 * (N as i64 - 1)));
    }
    cx.holds("no such beam", g.beam_angle(N).is_none() && g.beam_angle(N + 7).is_none() && g.beam_angle(usize::MAX).is_none());
}
fn nearest<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let fov = cx.var_open("fov", 0.1, 6.283185);
    let g = ScanGeometry::<N, S>::try_new(fov, S::TWO).unwrap();
    let a = if cx.choose(2) == 0 { cx.var_open("angle", -7.0, 7.0) } else { cx.any("a") };
    let n = g.nearest_beam_index(a);
    if !a.is_finite() || cx.ask(lt(fov, S::TWO * a.abs())) {
        cx.holds("outside the arc", n.is_none());
        return;
    }
    let n = n.unwrap();
    cx.holds("a beam of the scan", n < N);
    let off = |i: usize| (a - g.beam_angle(i).unwrap()).abs();
    for i in 0..N {
        cx.check("none is nearer", le(off(n), off(i)));
    }
    // back again
    for i in 0..N {
        cx.holds("its own direction", g.nearest_beam_index(g.beam_angle(i).unwrap()) == Some(i));
    }
}
fn every_beam<S: Sc>(cx: &mut Cx<S>) {
    match cx.choose(5) {
        0 => beams::<S, 2>(cx),
        1 => beams::<S, 3>(cx),
        2 => beams::<S, 4>(cx),
        3 => beams::<S, 5>(cx),
        _ => beams::<S, 8>(cx),
    }
}
fn nearest_beam<S: Sc>(cx: &mut Cx<S>) {
    match cx.choose(4) {
        0 => nearest::<S, 2>(cx),
        1 => nearest::<S, 3>(cx),
        2 => nearest::<S, 4>(cx),
        _ => nearest::<S, 5>(cx),
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C32", build, "ScanGeometry::{try_new,with_minimum_range}; any arc and ranges, finite or not"),
        h!("C32", valid, "ScanGeometry::range_is_valid; any reading"),
        h!("C32", every_beam, "ScanGeometry::{beam_angle,angle_increment,num_beams}; 2-5 and 8 beams, any arc"),
        h!("C32", nearest_beam, "ScanGeometry::nearest_beam_index; 2-5 beams, any arc and direction"),
    ]
}
