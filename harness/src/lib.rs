#![allow(clippy::all)]
pub mod rt;
pub mod spec;
pub mod decode;
pub mod util;
pub mod prep;
pub mod pipe;
pub mod img;
pub mod whole;
pub mod kinds;
#[cfg(feature = "dbg")]
pub mod dbg;

/// every harness by name, for the native replay
pub fn entries() -> Vec<(&'static str, extern "C" fn())> {
    macro_rules! table { ($($m:ident :: $f:ident),* $(,)?) => { vec![$((stringify!($f), $m::$f as extern "C" fn())),*] } }
    #[allow(unused_mut)]
    let mut t = table![
        decode::h_clean, decode::h_format, decode::h_damage, decode::h_agree_format, decode::h_segments, decode::h_content, decode::h_charset, decode::h_grid, decode::h_upstream,
        util::h_chomp, util::h_index, util::h_point,
        prep::h_prep,
        pipe::h_pipe, pipe::h_builder, pipe::h_defaults,
        img::h_extract, img::h_bounds, img::h_scan, img::h_locate, img::h_picture,
        whole::h_several, whole::h_slanted, whole::h_function, whole::h_again, kinds::h_kinds,
    ];
    #[cfg(feature = "dbg")]
    t.extend(table![dbg::h_debug_scan, dbg::h_debug_bounds, dbg::h_debug_symbol]);
    t
}
