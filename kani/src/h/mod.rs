macro_rules! mods {
    ($($f:literal $m:ident;)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        #[cfg(not(kani))]
        pub fn find(name: &str) -> Option<fn()> {
            let (_m, _n) = name.split_once("::")?;
            $(#[cfg(feature = $f)] if _m == stringify!($m) {
                return $m::TABLE.iter().find(|e| e.0 == _n).map(|e| e.1);
            })*
            None
        }
    };
}
mods! {
    "p01" p01;
    "p02" p02;
    "p03" p03;
    "p04" p04;
    "p05" p05;
    "p06" p06;
    "p07" p07;
    "p08" p08;
    "p09" p09;
    "p10" p10;
    "p11" p11;
    "p12" p12;
    "p13" p13;
    "p14" p14;
    "p15" p15;
    "p16" p16;
    "p17" p17;
    "p18" p18;
    "p19" p19;
    "p20" p20; 
    "p21" p21;
    "p22" p22;
    "p23" p23;
}
