mod sx;
mod world;
use world::*;

macro_rules! entries {
    ($($(#[$m:meta])* $n:ident => $f:expr;)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C-unwind" fn $n() { $f }
        )*
        pub fn entries() -> Vec<(&'static str, extern "C-unwind" fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, extern "C-unwind" fn())> = Vec::new();
            $($(#[$m])* { v.push((stringify!($n), $n)); })*
            v
        }
    };
}

#[cfg(feature = "c01")] mod c01;
#[cfg(feature = "c02")] mod c02;
#[cfg(any(feature = "c03", feature = "c04", feature = "c06"))] mod c03;
#[cfg(feature = "c05")] mod c05;
#[cfg(feature = "c04")] mod c04;
#[cfg(feature = "c06")] mod c06;
#[cfg(feature = "c07")] mod c07;
#[cfg(feature = "c08")] mod c08;
#[cfg(feature = "c09")] mod c09;
#[cfg(any(feature = "c10", feature = "c02", feature = "c11", feature = "c16", feature = "c20", feature = "c22"))] mod c10;
#[cfg(feature = "c11")] mod c11;
#[cfg(feature = "c12")] mod c12;
#[cfg(any(feature = "c13", feature = "c17"))] mod c13;
#[cfg(feature = "c14")] mod c14;
#[cfg(feature = "c15")] mod c15;
#[cfg(feature = "c16")] mod c16;
#[cfg(feature = "c18")] mod c18;
#[cfg(feature = "c20")] mod c20;
#[cfg(any(feature = "c01", feature = "c03", feature = "c04", feature = "c06", feature = "c07", feature = "c15", feature = "c21"))] mod wide;
#[cfg(any(feature = "c03", feature = "c04", feature = "c06", feature = "c07", feature = "c15"))] mod deep;
#[cfg(any(feature = "c01", feature = "c03", feature = "c04", feature = "c06", feature = "c07"))] mod crowd;
#[cfg(feature = "c21")] mod c21;
#[cfg(feature = "c22")] mod c22;
#[cfg(any(feature = "c08", feature = "c09", feature = "c10", feature = "c14", feature = "c18"))] mod tags;
#[cfg(any(feature = "c03", feature = "c06", feature = "c07", feature = "c08", feature = "c11", feature = "c12"))] mod scale;
#[cfg(any(feature = "c01", feature = "c03", feature = "c07", feature = "c08", feature = "c10", feature = "c11", feature = "c12", feature = "c13", feature = "c18", feature = "c20"))] mod sea;
#[cfg(any(feature = "c11", feature = "c12"))] mod lists;
#[cfg(any(feature = "c07", feature = "c08", feature = "c11", feature = "c12", feature = "c20"))] mod again;

entries! {
    #[cfg(feature = "c01")] h_c01_grow8 => c01::history(1, 0, 8);
    #[cfg(feature = "c01")] h_c01_sym6 => c01::sym(1, 0, b"??????");
    #[cfg(feature = "c01")] h_c01_sym8 => c01::sym(1, 0, b"????????");
    #[cfg(feature = "c01")] h_c01_gaps => c01::sym(8, 8, b"dddddccc");
    #[cfg(feature = "c01")] h_c01_gaps2 => c01::sym(33, 33, b"ddddcc");
    #[cfg(feature = "c01")] h_c01_mixed => c01::sym(6, 6, b"dd?dd?cc");
    #[cfg(feature = "c01")] h_c01_cycle => c01::cycle(70000);
    #[cfg(all(feature = "c01", division_verif))] h_c01_versions => c01::versions(4, 3);
    #[cfg(all(feature = "c01", division_verif))] h_c01_versions_grow => c01::versions(1, 3);
    #[cfg(feature = "c01")] h_c01_word => c01::history(31, 30, 5);

    #[cfg(feature = "c02")] h_c02_stale => c02::stale(4);
    #[cfg(feature = "c02")] h_c02_forged => c02::forged(4, 0, 23);

    #[cfg(feature = "c03")] h_c03_small => c03::history::<W32, W64, W8>(2, &[3, 5], 3, &[1, 2, 4, 6], &[1, 2, 5], &[0, 3]);
    #[cfg(feature = "c03")] h_c03_odd => c03::history::<Bytes3, Al32, Odd>(2, &[3, 5], 3, &[1, 2, 4, 6], &[1, 2, 5], &[0, 3]);
    #[cfg(feature = "c03")] h_c03_sym2 => c03::symbolic::<W32, W64, W8>(2, &[3, 5], 2, &[1, 2, 4, 6], &[1], &[0, 3]);

    #[cfg(feature = "c04")] h_c04_sets => c04::sets::<W16, W64, Odd>(&[0, 3], 3);
    #[cfg(feature = "c03")] h_c03_wide => wide::history(&[1, 1, 5], 2, true);
    #[cfg(feature = "c03")] h_c03_wide2 => wide::history(&[1, 2, 2], 1, true);
    #[cfg(feature = "c03")] h_c03_many => scale::many::<W32, W8>(1, 300, 0, &[32, 64, 128, 256], 2, false);
    #[cfg(feature = "c03")] h_c03_page => scale::many::<W32, W64>(4096, 4200, 0, &[256, 4096], 1, false);
    #[cfg(feature = "c03")] h_c03_full => scale::many::<W8, W32>(16384, 16400, 0, &[256, 16384], 1, false);
    #[cfg(feature = "c07")] h_c07_many => scale::many::<W32, W8>(1, 300, 3, &[256], 1, true);
    #[cfg(feature = "c07")] h_c07_page => scale::many::<W32, W64>(4096, 4200, 0, &[256, 4096], 1, true);
    #[cfg(feature = "c07")] h_c07_pages => scale::emptied::<B5k, W8>(24, 9, 3, 1);
    #[cfg(feature = "c06")] h_c06_bytes => scale::many::<B2k, W8>(1, 2100, 0, &[8, 128, 2048], 1, false);
    #[cfg(feature = "c06")] h_c06_pages => scale::emptied::<B5k, W8>(18, 6, 3, 2);
    #[cfg(feature = "c06")] h_c06_single => scale::emptied::<B5k, W8>(3, 3, 1, 3);
    #[cfg(feature = "c04")] h_c04_eight => wide::history(&[0, 1, 4], 2, true);
    #[cfg(feature = "c06")] h_c06_many => wide::many_archetypes(14, 2);
    #[cfg(feature = "c21")] h_c21_tuples => c21::all(1, 13);
    #[cfg(feature = "c21")] h_c21_mixed => c21::all_mixed();
    #[cfg(feature = "c04")] h_c04_sym => c03::symbolic::<W16, W64, Odd>(4, &[0, 3, 5], 2, &[1, 3, 6, 7], &[1, 3, 6, 7], &[]);
    #[cfg(feature = "c06")] h_c06_sym => c03::symbolic::<B4k, B5k, W8>(8, &[1, 1, 2], 2, &[2], &[1], &[1, 2]);
    #[cfg(feature = "c06")] h_c06_sym3 => c03::symbolic::<B5k, W32, W8>(8, &[1, 1, 1, 1], 3, &[], &[], &[1, 2]);
    #[cfg(feature = "c07")] h_c07_sym => c07::symbolic::<W32, W64, W8>(8, &[1, 5, 7, 0], 2, 1, &[4, 3], &[1], &[5]);
    #[cfg(feature = "c07")] h_c07_sympg => c07::symbolic::<B5k, W64, W8>(8, &[1, 1, 1, 1, 5], 2, 1, &[4], &[1], &[5]);
    #[cfg(feature = "c07")] h_c07_growing => scale::growing::<B5k, W8>(100);
    #[cfg(feature = "c02")] h_c02_sym => c02::symbolic(5, 0, 23, 1);
    #[cfg(feature = "c11")] h_c11_sym => c11::symbolic(&[1, 3, 1, 2], 3, 1);
    #[cfg(feature = "c13")] h_c13_sym => c13::symbolic(2, 3, 3);
    #[cfg(feature = "c13")] h_c13_sym4 => c13::symbolic(0, 0, 5);
    #[cfg(feature = "c13")] h_c13_many => c13::many(usize::MAX, 40, 2, &[1, 2, 4, 8, 16, 32]);
    #[cfg(feature = "c13")] h_c13_300 => c13::many(3, 300, 1, &[6, 12, 24, 96, 192, 256]);
    #[cfg(feature = "c14")] h_c14_any => c14::any_handle(4, 2);
    #[cfg(feature = "c14")] h_c14_sym => c14::symbolic::<W32, Odd, W8>(&[3, 1, 4], 2, &[1, 6], &[1, 7], &[3]);
    #[cfg(feature = "c14")] h_c14_huge => c14::huge();
    #[cfg(feature = "c14")] h_c14_everything => c14::everything(150);
    #[cfg(feature = "c14")] h_c14_bare => c14::bare(4);
    #[cfg(feature = "c06")] h_c06_steady => scale::steady::<B5k, W32, B2k>(14, 2, 5);
    #[cfg(feature = "c06")] h_c06_steady3 => scale::steady::<B5k, W32, B2k>(70, 2, 4);
    #[cfg(feature = "c06")] h_c06_steady4 => scale::steady::<W64, W32, W8>(200, 2, 4);
    #[cfg(feature = "c06")] h_c06_tides => crowd::tides(20, 3, 5);
    #[cfg(feature = "c06")] h_c06_steady2 => scale::steady::<W32, Odd, W8>(70, 2, 5);
    #[cfg(feature = "c16")] h_c16_sym => c16::symbolic(5, 3, 2);
    #[cfg(feature = "c16")] h_c16_sym2 => c16::symbolic(4, 1, 3);
    #[cfg(feature = "c20")] h_c20_sym => c20::symbolic(&[1, 3, 1, 2], 2, 2);
    #[cfg(feature = "c20")] h_c20_pages => c20::pages::<B5k, W8>(40);
    #[cfg(feature = "c20")] h_c20_rows => c20::pages::<W32, W8>(300);
    #[cfg(feature = "c11")] h_c11_long => lists::long::<W32, W8>(60, true);
    #[cfg(feature = "c11")] h_c11_pages => lists::long::<B5k, W8>(60, true);
    #[cfg(feature = "c12")] h_c12_long => lists::long::<W32, W8>(60, false);
    #[cfg(feature = "c12")] h_c12_pages => lists::long::<B5k, W8>(60, false);
    #[cfg(feature = "c03")] h_c03_big => c03::history::<B5k, B4k, W8>(4, &[1, 3, 2], 2, &[1, 2, 4], &[1, 2], &[3]);
    #[cfg(feature = "c04")] h_c04_wide => c04::wide(4);

    #[cfg(all(feature = "c05", division_verif))] h_c05_one => c05::layout(1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
    #[cfg(all(feature = "c05", division_verif))] h_c05_two => c05::layout(2, &[0, 1, 2, 3, 6, 12]);
    #[cfg(all(feature = "c05", division_verif))] h_c05_three => c05::layout(3, &[0, 2, 4, 12]); // thorough
    #[cfg(all(feature = "c05", division_verif))] h_c05_four => c05::layout(4, &[0, 5]); // thorough
    #[cfg(feature = "c05")] h_c05_shape_a => c05::shapes::<B4k, Al32, Bytes3>(5, true);
    #[cfg(feature = "c05")] h_c05_shape_b => c05::shapes::<Odd, Al64, B2k>(6, true);
    #[cfg(feature = "c05")] h_c05_shape_c => c05::shapes::<B5k, W8, W64>(4, true);
    #[cfg(feature = "c05")] h_c05_shape_d => c05::shapes::<Empty, W32, Empty16>(4, true);
    #[cfg(feature = "c05")] h_c05_shape_e => c05::shapes::<B5k, Empty, Empty16>(4, true);
    #[cfg(feature = "c05")] h_c05_too_large => c05::too_large();

    #[cfg(feature = "c06")] h_c06_big => c06::history::<B4k, B5k, W8>(4, &[1, 1, 1], 3, &[2, 4], &[1], &[1, 3]);
    #[cfg(feature = "c06")] h_c06_shapes => c06::history::<W32, W64, W8>(4, &[1, 2, 4], 3, &[1, 2, 4], &[1, 2, 4], &[]);

    #[cfg(feature = "c07")] h_c07_small => c07::history::<W32, W64, W8>(4, 2, &[0, 1, 3, 5, 7], 1, &[1, 4], &[1, 2]);
    #[cfg(feature = "c07")] h_c07_big => c07::history::<B4k, W16, B2k>(4, 4, &[1, 3], 1, &[2, 4], &[1]);

    #[cfg(feature = "c08")] h_c08_hist => c08::history(3, &[1, 3], 2, 3);
    #[cfg(feature = "c08")] h_c08_sym => c08::symbolic(29, 6);
    #[cfg(feature = "c08")] h_c08_long => c08::long(1500);

    #[cfg(feature = "c09")] h_c09_hist => c09::history(1, 1, 1, 2, 5);
    #[cfg(feature = "c09")] h_c09_three => c09::history(2, 2, 2, 3, 4);
    #[cfg(feature = "c09")] h_c09_word => c09::history(31, 31, 2, 2, 4);
    #[cfg(feature = "c09")] h_c09_sym => c09::symbolic(31, 31, 4, 0);

    #[cfg(feature = "c09")] h_c09_tags => tags::tags(3, 5, 2);
    #[cfg(feature = "c09")] h_c09_five => tags::tags(5, 4, 1);
    #[cfg(feature = "c09")] h_c09_words => tags::tags(1, 33, 2);
    #[cfg(feature = "c10")] h_c10_groups => tags::groups(3, 4, 4, 2);
    #[cfg(feature = "c10")] h_c10_five => tags::groups(5, 4, 3, 1);
    #[cfg(feature = "c10")] h_c10_long => tags::long(40, 2);
    #[cfg(feature = "c10")] h_c10_one => c10::history(4, 4, 4, false, true);
    #[cfg(feature = "c10")] h_c10_two => c10::history(1, 2, 4, true, true);
    #[cfg(feature = "c10")] h_c10_sym => c10::symbolic(4, 4);

    #[cfg(feature = "c11")] h_c11_hist => c11::history(3, &[0, 1, 3], 3, 1);

    #[cfg(feature = "c12")] h_c12_hist => c12::history(3, &[0, 1, 3], 1, 3, 1);
    #[cfg(feature = "c12")] h_c12_sym => c12::symbolic(2, &[1, 3, 0, 2], 0);
    #[cfg(feature = "c12")] h_c12_sym3 => c12::symbolic(3, &[1, 3, 0, 2], 0);
    #[cfg(feature = "c12")] h_c12_symw => c12::symbolic(2, &[1, 3, 2], 1);
    #[cfg(feature = "c07")] h_c07_shared => c07::shared(&[1, 3, 7], 1);
    #[cfg(feature = "c08")] h_c08_sym61 => c08::symbolic(61, 6);
    #[cfg(feature = "c08")] h_c08_sym10 => c08::symbolic(26, 10);
    #[cfg(feature = "c08")] h_c08_pages => c08::pages::<B5k, W8>(40, 1);
    #[cfg(feature = "c08")] h_c08_rows => c08::pages::<W32, W8>(140, 1);
    #[cfg(feature = "c09")] h_c09_sym64 => c09::symbolic(64, 66, 4, 60);
    #[cfg(feature = "c15")] h_c15_sym1 => c15::symbolic(3, 0, true);
    #[cfg(feature = "c15")] h_c15_sym2 => c15::symbolic(2, 2, false);
    #[cfg(feature = "c15")] h_c15_eight => c15::eight();
    #[cfg(feature = "c18")] h_c18_long => c18::long(1, 600);
    #[cfg(feature = "c18")] h_c18_sym => c18::symbolic(3, 4);
    #[cfg(feature = "c18")] h_c18_sym32 => c18::symbolic(32, 1);

    #[cfg(feature = "c13")] h_c13_new => c13::history::<c13::Owned>(usize::MAX, 0, 5);
    #[cfg(feature = "c13")] h_c13_cap0 => c13::history::<c13::Owned>(0, 0, 4);
    #[cfg(feature = "c13")] h_c13_cap1 => c13::history::<c13::Owned>(1, 1, 5);
    #[cfg(feature = "c13")] h_c13_wide => c13::history::<c13::Wide>(1, 1, 4);
    #[cfg(feature = "c13")] h_c13_bare => c13::history::<c13::Bare>(0, 0, 4);
    #[cfg(feature = "c13")] h_c13_boxed => c13::history::<c13::Boxed>(1, 0, 4);
    #[cfg(feature = "c13")] h_c13_zero => c13::history::<c13::Zero>(usize::MAX, 0, 5);
    #[cfg(feature = "c17")] h_c17_long => c13::cycled(300);
    #[cfg(feature = "c17")] h_c17_sym => c13::stale_sym(2, 3, 3);
    #[cfg(feature = "c17")] h_c17_stale => c13::stale(1, 4);
    #[cfg(feature = "c17")] h_c17_sym4 => c13::stale_sym(2, 4, 4);
    #[cfg(feature = "c17")] h_c17_stale6 => c13::stale(1, 6);
    #[cfg(feature = "c17")] h_c17_70000 => c13::cycled(70_000);

    #[cfg(feature = "c14")] h_c14_mix => c14::history::<W32, Odd, W8>(1, 4);

    #[cfg(feature = "c15")] h_c15_pairs => c15::pairs(5);
    #[cfg(feature = "c15")] h_c15_lists => c15::lists(3, 2);
    #[cfg(feature = "c15")] h_c15_builder => c15::builder(3);
    #[cfg(feature = "c15")] h_c15_tuples => c15::tuples();

    #[cfg(feature = "c16")] h_c16_hist => c16::history(3, 3);

    #[cfg(feature = "c18")] h_c18_grow => c18::growth(&[1, 2, 3, 31, 32, 33, 64], 2);

    #[cfg(feature = "c20")] h_c20_lens => c20::lens::<W32, W64, W8>(3, &[0, 1, 3], 2, 1);

    #[cfg(feature = "c22")] h_c22_stores => c22::stores(2);
    #[cfg(feature = "c22")] h_c22_together => c22::together(false, 0);
    #[cfg(feature = "c22")] h_c22_across => c22::together(true, 0);
    #[cfg(feature = "c22")] h_c22_questions => c22::questions(1, 1);
    #[cfg(feature = "c22")] h_c22_sym => c22::symbolic(2);
    #[cfg(feature = "c22")] h_c22_replaced => c22::replaced(1);
    #[cfg(feature = "c22")] h_c22_resources => c22::resources(4);

    #[cfg(feature = "c01")] h_c01_handles => crowd::handles(120, 2);
    #[cfg(feature = "c03")] h_c03_crowd => crowd::archetypes(1, 24, 1, false);
    #[cfg(feature = "c04")] h_c04_crowd => crowd::archetypes(30, 20, 1, false);
    #[cfg(feature = "c06")] h_c06_crowd => crowd::archetypes(4, 36, 1, false);
    #[cfg(feature = "c07")] h_c07_crowd => crowd::archetypes(4, 24, 1, true);
    #[cfg(feature = "c09")] h_c09_many => tags::many_tags(20, 24, 1);
    #[cfg(feature = "c10")] h_c10_many => tags::many_groups(12, 12, 1);
    #[cfg(feature = "c03")] h_c03_pages => scale::many::<B5k, W8>(4, 780, 0, &[], 1, false);
    #[cfg(feature = "c07")] h_c07_260 => scale::many::<B5k, W8>(780, 780, 0, &[], 1, true);
    #[cfg(feature = "c08")] h_c08_260 => c08::pages::<B5k, W8>(780, 1);
    #[cfg(feature = "c11")] h_c11_260 => lists::long::<B5k, W8>(780, true);
    #[cfg(feature = "c12")] h_c12_260 => lists::long::<B5k, W8>(780, false);
    #[cfg(feature = "c20")] h_c20_260 => c20::pages::<B5k, W8>(780);
    #[cfg(feature = "c03")] h_c03_alone => c03::history::<B8k, W64, W8>(2, &[1, 3, 2], 2, &[1, 2], &[1, 2], &[3]);

    #[cfg(feature = "c06")] h_c06_alone => scale::emptied::<B8k, W8>(7, 3, 1, 2);
    #[cfg(feature = "c06")] h_c06_steady5 => scale::steady::<B8k, W32, W64>(14, 2, 5);
    #[cfg(feature = "c07")] h_c07_alone => scale::growing::<B8k, W8>(40);
    #[cfg(feature = "c11")] h_c11_alone => lists::long::<B8k, W8>(20, true);
    #[cfg(feature = "c12")] h_c12_alone => lists::long::<B8k, W8>(20, false);
    #[cfg(feature = "c20")] h_c20_alone => c20::pages::<B8k, W8>(26);
    #[cfg(feature = "c03")] h_c03_tall => deep::tall(1, 66, 1);
    #[cfg(feature = "c04")] h_c04_tall => deep::tall(6, 70, 1);
    #[cfg(feature = "c04")] h_c04_deep => deep::pairs(4, 270, false);
    #[cfg(feature = "c06")] h_c06_deep => deep::pairs(300, 140, false);
    #[cfg(feature = "c07")] h_c07_deep => deep::pairs(4, 270, true);
    #[cfg(feature = "c15")] h_c15_deep => deep::sets();
    #[cfg(feature = "c01")] h_c01_sea => sea::ids();
    #[cfg(feature = "c03")] h_c03_sea => sea::comps();
    #[cfg(feature = "c07")] h_c07_sea => sea::queries(false);
    #[cfg(feature = "c08")] h_c08_sea => sea::queries(true);
    #[cfg(feature = "c10")] h_c10_sea => sea::ordered(false);
    #[cfg(feature = "c11")] h_c11_sea => sea::ordered(true);
    #[cfg(feature = "c18")] h_c18_sea => sea::growth();
    #[cfg(feature = "c12")] h_c12_sea => sea::listed();
    #[cfg(feature = "c13")] h_c13_sea => sea::resources();
    #[cfg(feature = "c20")] h_c20_sea => sea::lengths();
    #[cfg(feature = "c07")] h_c07_again => again::queries(&[1, 5, 2], 3, b"cabrD", 3);
    #[cfg(feature = "c08")] h_c08_again => again::filtered(&[1, 3, 2], 3, b"carDtu", 2);
    #[cfg(feature = "c11")] h_c11_again => again::ordered(&[1, 3, 1, 2], 4, b"carDolnp", 2);
    #[cfg(feature = "c12")] h_c12_again => again::listed(&[1, 3, 2], 3, b"carD", 3);
    #[cfg(feature = "c20")] h_c20_again => again::lengths(&[1, 3, 1, 2], 4, b"carDol", 2);
    #[cfg(feature = "c01")] h_c01_new => c01::sym(usize::MAX, 9, b"dd?cc");
    #[cfg(feature = "c14")] h_c14_new => c14::history::<W32, Odd, W8>(usize::MAX, 3);
    #[cfg(feature = "c18")] h_c18_new => c18::growth(&[0], 2);
    #[cfg(feature = "c07")] h_c07_mid => again::mid_query::<W32>(9, 5);
    #[cfg(feature = "c07")] h_c07_midpg => again::mid_query::<B5k>(12, 5);
    #[cfg(feature = "c08")] h_c08_mid => again::mid_filter::<W32>(5, 2);
    #[cfg(feature = "c08")] h_c08_midpg => again::mid_filter::<B5k>(6, 2);
    #[cfg(feature = "c11")] h_c11_mid => again::mid_ordered::<W32>(9, 5);
    #[cfg(feature = "c11")] h_c11_midpg => again::mid_ordered::<B5k>(12, 5);
    #[cfg(feature = "c12")] h_c12_mid => again::mid_listed::<W32>(7, 3);
    #[cfg(feature = "c12")] h_c12_midpg => again::mid_listed::<B5k>(9, 3);
    #[cfg(feature = "c20")] h_c20_hints => again::hints::<W32>(7, 4);
    #[cfg(feature = "c20")] h_c20_hintpg => again::hints::<B5k>(9, 4);
    #[cfg(feature = "c09")] h_c09_flood => tags::flood_tags();
    #[cfg(feature = "c10")] h_c10_flood => tags::flood_groups();
    // components without data
    #[cfg(feature = "c03")] h_c03_empty => c03::symbolic::<W32, Empty, Empty16>(4, &[3, 5], 2, &[1, 2, 4, 6], &[1, 2], &[0, 3]);
    #[cfg(feature = "c04")] h_c04_empty => c03::symbolic::<Empty, W64, Empty16>(4, &[3, 5], 2, &[1, 6], &[1, 6, 7], &[]);
    #[cfg(feature = "c06")] h_c06_empty => c03::symbolic::<Empty, W32, B5k>(8, &[1, 5, 4], 3, &[], &[], &[1, 4]);
    #[cfg(feature = "c07")] h_c07_empty => c07::symbolic::<Empty, W64, Empty16>(8, &[1, 5, 7, 0], 2, 1, &[4, 3], &[1], &[5]);
    #[cfg(feature = "c07")] h_c07_markers => scale::many::<Empty, W32>(4096, 4200, 0, &[256, 4096], 1, true);
    #[cfg(feature = "c08")] h_c08_empty => c08::pages::<Empty, W8>(140, 1);
    #[cfg(feature = "c11")] h_c11_empty => lists::long::<Empty, W8>(60, true);
    #[cfg(feature = "c12")] h_c12_empty => lists::long::<Empty, W8>(60, false);
    #[cfg(feature = "c14")] h_c14_empty => c14::history::<Empty, Odd, Empty16>(1, 3);
    #[cfg(feature = "c20")] h_c20_empty => c20::lens::<Empty, W64, Empty16>(3, &[0, 1, 3], 2, 1);
    #[cfg(feature = "c20")] h_c20_markers => c20::pages::<Empty, W8>(40);
    // deeper
    #[cfg(feature = "c01")] h_c01_sym9 => c01::sym(1, 0, b"?????????"); // thorough
    #[cfg(feature = "c01")] h_c01_gaps3 => c01::sym(65, 65, b"dddddccc"); // thorough
    #[cfg(feature = "c01")] h_c01_handles3 => crowd::handles(240, 3); // thorough
    #[cfg(feature = "c02")] h_c02_sym6 => c02::symbolic(6, 0, 23, 2);
    #[cfg(feature = "c02")] h_c02_forged31 => c02::forged(33, 0, 23);
    #[cfg(feature = "c03")] h_c03_sym3 => c03::symbolic::<W32, W64, W8>(2, &[3, 5], 3, &[1, 2, 4, 6], &[1], &[0, 3]); // thorough
    #[cfg(feature = "c03")] h_c03_wide3 => wide::history(&[1, 2, 5], 3, false); // thorough
    #[cfg(feature = "c03")] h_c03_tall2 => deep::tall(3, 72, 2); // thorough
    #[cfg(feature = "c04")] h_c04_sets4 => c04::sets::<W16, W64, Odd>(&[0, 3], 4); // thorough
    #[cfg(feature = "c04")] h_c04_sym3 => c03::symbolic::<W16, W64, Odd>(4, &[0, 3, 5], 3, &[1, 3, 6, 7], &[1, 3, 6, 7], &[]); // thorough
    #[cfg(feature = "c04")] h_c04_eight3 => wide::history(&[0, 4], 3, true); // thorough
    #[cfg(feature = "c06")] h_c06_sym4 => c03::symbolic::<B5k, W32, W8>(8, &[1, 1, 1, 1, 1], 4, &[], &[], &[1, 2]); // thorough
    #[cfg(feature = "c06")] h_c06_pages3 => scale::emptied::<B5k, W8>(21, 6, 3, 3); // thorough
    #[cfg(feature = "c06")] h_c06_many3 => wide::many_archetypes(14, 3); // thorough
    #[cfg(feature = "c06")] h_c06_tides2 => crowd::tides(60, 4, 8); // thorough
    #[cfg(feature = "c07")] h_c07_sym3 => c07::symbolic::<W32, W64, W8>(8, &[1, 5, 7, 0], 2, 2, &[4, 3], &[1], &[5]); // thorough
    #[cfg(feature = "c07")] h_c07_small2 => c07::history::<W32, W64, W8>(4, 2, &[0, 1, 3, 5, 7], 2, &[1, 4], &[1, 2]); // thorough
    #[cfg(feature = "c07")] h_c07_many2 => scale::many::<W32, W8>(1, 300, 3, &[256], 2, true); // thorough
    #[cfg(feature = "c08")] h_c08_hist4 => c08::history(3, &[1, 3], 2, 4); // thorough
    #[cfg(feature = "c08")] h_c08_sym14 => c08::symbolic(24, 14); // thorough
    #[cfg(feature = "c08")] h_c08_pages2 => c08::pages::<B5k, W8>(40, 2); // thorough
    #[cfg(feature = "c09")] h_c09_hist6 => c09::history(1, 1, 1, 2, 6); // thorough
    #[cfg(feature = "c09")] h_c09_sym6 => c09::symbolic(31, 31, 6, 0); // thorough
    #[cfg(feature = "c09")] h_c09_tags3 => tags::tags(3, 5, 3); // thorough
    #[cfg(feature = "c10")] h_c10_sym5 => c10::symbolic(4, 5); // thorough
    #[cfg(feature = "c10")] h_c10_one5 => c10::history(4, 4, 5, false, true); // thorough
    #[cfg(feature = "c10")] h_c10_groups3 => tags::groups(2, 4, 4, 3); // thorough
    #[cfg(feature = "c11")] h_c11_sym4 => c11::symbolic(&[1, 3, 1, 2, 3], 4, 1); // thorough
    #[cfg(feature = "c11")] h_c11_hist2 => c11::history(3, &[0, 1, 3], 3, 2); // thorough
    #[cfg(feature = "c12")] h_c12_sym4 => c12::symbolic(4, &[1, 3, 0, 2], 0); // thorough
    #[cfg(feature = "c12")] h_c12_sym3w => c12::symbolic(3, &[1, 3, 2], 1); // thorough
    #[cfg(feature = "c12")] h_c12_hist4 => c12::history(3, &[0, 1, 3], 1, 4, 1); // thorough
    #[cfg(feature = "c13")] h_c13_sym5 => c13::symbolic(2, 4, 4); // thorough
    #[cfg(feature = "c13")] h_c13_new6 => c13::history::<c13::Owned>(usize::MAX, 0, 6); // thorough
    #[cfg(feature = "c13")] h_c13_zero6 => c13::history::<c13::Zero>(usize::MAX, 0, 6); // thorough
    #[cfg(feature = "c14")] h_c14_sym3 => c14::symbolic::<W32, Odd, W8>(&[3, 4], 3, &[1, 6], &[1, 7], &[3]); // thorough
    #[cfg(feature = "c14")] h_c14_mix5 => c14::history::<W32, Odd, W8>(1, 5); // thorough
    #[cfg(feature = "c14")] h_c14_bare5 => c14::bare(5); // thorough
    #[cfg(feature = "c15")] h_c15_sym3 => c15::symbolic(3, 2, false); // thorough
    #[cfg(feature = "c15")] h_c15_sym4 => c15::symbolic(4, 0, true); // thorough
    #[cfg(feature = "c15")] h_c15_pairs6 => c15::pairs(6); // thorough
    #[cfg(feature = "c15")] h_c15_builder5 => c15::builder(5); // thorough
    #[cfg(feature = "c16")] h_c16_sym4 => c16::symbolic(4, 2, 4); // thorough
    #[cfg(feature = "c16")] h_c16_hist4 => c16::history(3, 4); // thorough
    #[cfg(feature = "c18")] h_c18_grow3 => c18::growth(&[1, 2, 31, 32, 33], 3); // thorough
    #[cfg(feature = "c18")] h_c18_sym6 => c18::symbolic(4, 9); // thorough
    #[cfg(feature = "c18")] h_c18_2000 => c18::long(1, 2000); // thorough
    #[cfg(feature = "c20")] h_c20_sym3 => c20::symbolic(&[1, 3, 1, 2], 3, 2); // thorough
    #[cfg(feature = "c20")] h_c20_sym5 => c20::symbolic(&[1, 3, 1, 2], 2, 3); // thorough
    #[cfg(feature = "c20")] h_c20_lens4 => c20::lens::<W32, W64, W8>(4, &[0, 1, 3], 2, 1); // thorough
    #[cfg(feature = "c22")] h_c22_sym3 => c22::symbolic(3); // thorough
    #[cfg(feature = "c22")] h_c22_resources5 => c22::resources(5); // thorough
    #[cfg(feature = "c22")] h_c22_replaced2 => c22::replaced(2); // thorough
    #[cfg(feature = "c08")] h_c08_again3 => again::filtered(&[1, 3, 2], 3, b"carDtu", 3); // thorough
    #[cfg(feature = "c11")] h_c11_again3 => again::ordered(&[1, 3, 2], 3, b"carDolnp", 3);
    #[cfg(feature = "c20")] h_c20_again3 => again::lengths(&[1, 3, 2], 3, b"carDol", 3);
}
