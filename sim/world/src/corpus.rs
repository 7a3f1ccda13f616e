//! Classes compiled by javac from /verif/corpus/java (written by corpus/make.sh).
macro_rules! all { ($($n:literal)*) => { &[$(($n, include_bytes!(concat!("../../../corpus/classes/", $n, ".class")))),*] } }
#[rustfmt::skip]
pub const ALL: &[(&str, &[u8])] = all! {
    "full-Large"
    "full-Numbers"
    "full-Numbers_1"
    "full-Numbers_1Local"
    "full-Numbers_1Local_Deep"
    "full-Numbers_2"
    "full-Numbers_Member"
    "full-Numbers_Member_Leaf"
    "full-Numbers_Nest"
    "full-Numbers_Priv"
    "full-Shapes"
    "full-Shapes_1"
    "full-Shapes_Circle"
    "full-Shapes_Kind"
    "full-Shapes_Kind_1"
    "full-Shapes_Mark"
    "full-Shapes_Poly"
    "full-Shapes_Rect"
    "mod-Impl"
    "mod-module-info"
    "mod-package-info"
    "none-Numbers"
    "none-Numbers_1"
    "none-Numbers_1Local"
    "none-Numbers_1Local_Deep"
    "none-Numbers_2"
    "none-Numbers_Member"
    "none-Numbers_Member_Leaf"
    "none-Numbers_Nest"
    "none-Numbers_Priv"
    "none-Shapes"
    "none-Shapes_1"
    "none-Shapes_Circle"
    "none-Shapes_Kind"
    "none-Shapes_Kind_1"
    "none-Shapes_Mark"
    "none-Shapes_Poly"
    "none-Shapes_Rect"
    "v11-Numbers"
    "v11-Numbers_1"
    "v11-Numbers_1Local"
    "v11-Numbers_1Local_Deep"
    "v11-Numbers_2"
    "v11-Numbers_Member"
    "v11-Numbers_Member_Leaf"
    "v11-Numbers_Nest"
    "v11-Numbers_Priv"
    "v8-Numbers"
    "v8-Numbers_1"
    "v8-Numbers_1Local"
    "v8-Numbers_1Local_Deep"
    "v8-Numbers_2"
    "v8-Numbers_Member"
    "v8-Numbers_Member_Leaf"
    "v8-Numbers_Nest"
    "v8-Numbers_Priv"
};
