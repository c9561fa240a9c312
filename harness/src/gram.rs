//! The grammar of names, for patterns with `<X>` in them: each rule costs one
//! or more units of the pattern's budget unless it is the plainest choice.
pub const RULES: &[(u8, &[(u32, &str)])] = &[
    // types
    (b'T', &[
        (0, "H"), (1, "_J"), (1, "D"), (1, "X"), (1, "$$T"),
        (1, "<p><T>"), (1, "V<N>"), (1, "{TU}<N>"), (1, "W4<N>"),
        (1, "P6<f>"), (1, "{AQ}6<f>"), (1, "$$Q6<f>"), (1, "P8c@@<X><Q><f>"), (1, "PQc@@<T>"), (1, "Y01<T>"), (1, "Y1{01}2<T>"), (1, "{PA}AY01<T>"), (1, "$$QBY01<T>"), (1, "Y01$$C{AB}<T>"),
        (1, "$$A6<f>"), (1, "$$A8@@<X><Q><f>"), (1, "$$CB<T>"), (1, "?B<T>"), (1, "{0-3}"), (1, "?c@"),
    ]),
    // pointers and references, up to the type they point to
    (b'p', &[(0, "PA"), (1, "PB"), (1, "QC"), (1, "PEA"), (1, "PIA"), (1, "PFA"), (1, "AA"), (1, "$$QA"), (1, "SEID")]),
    // names of types
    (b'N', &[(0, "<F><S>")]),
    (b'F', &[(0, "c@"), (1, "d@"), (1, "k{A-Z_$<->}@"), (1, "é@"), (1, "?$t@<A>@"), (1, "{0-3}")]),
    // scopes and the end of the name
    (b'S', &[(0, "@"), (1, "n@<S>"), (1, "{0-3}<S>"), (1, "?A0x1@<S>"), (1, "?$s@<A>@<S>"), (1, "?1?<Y>@<S>")]),
    // template arguments
    (b'A', &[
        (0, "<T>"), (1, "<T><A>"), (1, ""), (1, "$0{01}"), (1, "$1<Y>"), (1, "$E<Y>"), (1, "$H<Y>{01}"), (1, "$F12"), (1, "$MH0{01}"),
        (1, "$$V"), (1, "$S<A>"), (1, "$$Y<N>"), (1, "$$BY01<T>"),
    ]),
    // calling convention, return type, parameters, end
    (b'f', &[(0, "<c><r><l><e>")]),
    (b'c', &[(0, "A"), (1, "G"), (1, "E"), (1, "Q")]),
    (b'r', &[(0, "X"), (1, "<T>"), (1, "?A<T>"), (1, "?B<T>"), (1, "@")]),
    (b'l', &[(0, "X"), (0, "<T>@"), (1, "<T><T>@"), (2, "<T><T><T>@"), (1, "<T>Z"), (1, "Z")]),
    (b'e', &[(0, "Z"), (1, "_E")]),
    // extended qualifiers, and qualifiers
    (b'X', &[(0, ""), (1, "E"), (1, "I"), (1, "F"), (1, "G"), (1, "H")]),
    (b'Q', &[(0, "A"), (1, "B"), (1, "C"), (1, "D")]),
    // what functions are called
    (b'O', &[(0, "f@"), (1, "?$f@<A>@"), (1, "?0"), (1, "?1"), (1, "?D"), (1, "?B"), (1, "?_E"), (1, "?$?DH@"), (1, "?$?BH@"), (1, "?__K_x@")]),
    // functions
    (b'G', &[
        (0, "?<O><S>Y<f>"), (1, "?<O>c@<S>Q<X><Q><f>"), (1, "?<O>c@<S>U<X><Q><f>"), (1, "?<O>c@<S>C<f>"),
        (1, "?<O>c@<S>W3<X><Q><f>"), (1, "?<O>c@<S>$4A@3<X><Q><f>"), (1, "?<O>c@<S>$R4A@A@A@3<X><Q><f>"), (1, "?<O><S>$$J0Y<f>"), (1, "?<O><S>9"),
    ]),
    // variables
    (b'V', &[(0, "?x@<S>3<T><Q>"), (1, "?x@c@<S>2<T><Q>"), (1, "?x@<S>4<T><Q>"), (1, "?x@c@<S>0<T><Q>"), (1, "?$x@<A>@<S>3<T><Q>")]),
    // everything else
    (b'K', &[
        (0, "??_7<N>6<Q>@"), (0, "??_7<N>6B<N>@"), (0, "??_R0<T>@8"), (0, "??_R0?A<T>@8"), (0, "??_R1A@?0A@EA@<N>8"), (0, "??_R2<N>8"), (0, "??_R4<N>6B<N>@"),
        (0, "??_B?1?<Y>@51"), (0, "??_9<N>$BA@A{AE}"), (0, "??__Ex@<S>Y<f>"), (0, "??__E?x@<S>2<T>A@@Y<f>"), (0, "??__F?x@<S>2<T>A@@Y<f>"), (0, "??_C@_02A@a?$AA@"), (0, ".<T>"), (0, ".?A<T>"), (0, "??@ab@"),
    ]),
    // numbers
    (b'n', &[
        (0, "0"), (1, "{1-9}"), (1, "?{0-9}"), (1, "A@"), (1, "?A@"), (1, "{B-P}@"), (1, "?{B-P}@"), (1, "{BP}{A-P}@"), (1, "HPPPPPPP@"), (1, "(|?)IAAAAAAA@"), (1, "(|?)PPPPPPPP@"),
        (1, "BAAAAAAAA@"), (1, "(|?)HPPPPPPPPPPPPPPP@"), (1, "(|?)IAAAAAAAAAAAAAAA@"), (1, "PPPPPPPPPPPPPPPP@"), (1, "BAAAAAAAAAAAAAAAA@"), (1, "@"),
    ]),
    // characters of a literal, one byte each
    (b'h', &[(0, "a"), (1, "{0-9_$}"), (1, "?{0-9}"), (1, "?{ahpAHP}"), (1, "?$A{AJKN}"), (1, "?$CC"), (1, "?$FM"), (1, "?$HP"), (1, "?${IP}{AP}")]),
    (b'Y', &[(0, "<G>"), (1, "<V>"), (1, "<K>")]),
];
