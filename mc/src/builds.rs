//! Written by tools/gen_builds.py: values built by macros, and the texts of the same values.
use over::value::Value;
use over::{arr, frac, int, obj, try_arr, try_obj, tup, OverError};

type R = Result<Value, OverError>;
#[allow(clippy::all)]
#[inline(never)]
fn b0(i: usize) -> R {
    Ok(match i {
        0 => Value::from(1),
        1 => Value::from("s"),
        2 => Value::from(arr![]),
        3 => Value::from(over::tup::Tup::empty()),
        4 => Value::from(obj!{}),
        5 => Value::from(try_arr![1]?),
        6 => Value::from(tup!(1)),
        7 => Value::from(obj!{"p" => 1,}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 1} } f()? }),
        9 => Value::from(try_arr!["s"]?),
        10 => Value::from(tup!("s")),
        11 => Value::from(obj!{"p" => "s",}),
        12 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "s"} } f()? }),
        13 => Value::from(try_arr![arr![]]?),
        14 => Value::from(tup!(arr![])),
        15 => Value::from(obj!{"p" => arr![],}),
        16 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![]} } f()? }),
        17 => Value::from(try_arr![over::tup::Tup::empty()]?),
        18 => Value::from(tup!(over::tup::Tup::empty())),
        _ => Value::from(obj!{"p" => over::tup::Tup::empty(),}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b1(i: usize) -> R {
    Ok(match i {
        0 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => over::tup::Tup::empty()} } f()? }),
        1 => Value::from(try_arr![obj!{}]?),
        2 => Value::from(tup!(obj!{})),
        3 => Value::from(obj!{"p" => obj!{},}),
        4 => Value::from(obj!{"^" => obj!{}}),
        5 => Value::from(try_arr![try_arr![1]?,]?),
        6 => Value::from(tup!(try_arr![1]?)),
        7 => Value::from(obj!{"p" => try_arr![1]?}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => try_arr![1]?} } f()? }),
        9 => Value::from(try_arr![tup!(1,),]?),
        10 => Value::from(tup!(tup!(1,))),
        11 => Value::from(obj!{"p" => tup!(1,)}),
        12 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => tup!(1,)} } f()? }),
        13 => Value::from(try_arr![obj!{"p" => 1},]?),
        14 => Value::from(tup!(obj!{"p" => 1})),
        15 => Value::from(obj!{"p" => obj!{"p" => 1}}),
        16 => Value::from(obj!{"^" => obj!{"p" => 1},}),
        17 => Value::from(try_arr![{ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 1} } f()? }]?),
        18 => Value::from(tup!({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 1} } f()? })),
        _ => Value::from(obj!{"p" => { fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 1} } f()? },}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b2(i: usize) -> R {
    Ok(match i {
        0 => Value::from(obj!{"^" => { fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 1} } f()? }}),
        1 => Value::from(try_arr![try_arr!["s"]?]?),
        2 => Value::from(tup!(try_arr!["s"]?,)),
        3 => Value::from(obj!{"p" => try_arr!["s"]?}),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => try_arr!["s"]?} } f()? }),
        5 => Value::from(try_arr![tup!("s",)]?),
        6 => Value::from(tup!(tup!("s",),)),
        7 => Value::from(obj!{"p" => tup!("s",)}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => tup!("s",)} } f()? }),
        9 => Value::from(try_arr![obj!{"p" => "s"}]?),
        10 => Value::from(tup!(obj!{"p" => "s"},)),
        11 => Value::from(obj!{"p" => obj!{"p" => "s"}}),
        12 => Value::from(obj!{"^" => obj!{"p" => "s"}}),
        13 => Value::from(try_arr![{ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "s"} } f()? },]?),
        14 => Value::from(tup!({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "s"} } f()? })),
        15 => Value::from(obj!{"p" => { fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "s"} } f()? }}),
        16 => Value::from(obj!{"^" => { fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "s"} } f()? },}),
        17 => Value::from(try_arr![try_arr![arr![]]?]?),
        18 => Value::from(tup!(try_arr![arr![]]?)),
        _ => Value::from(obj!{"p" => try_arr![arr![]]?,}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b3(i: usize) -> R {
    Ok(match i {
        0 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => try_arr![arr![]]?} } f()? }),
        1 => Value::from(try_arr![tup!(arr![],)]?),
        2 => Value::from(tup!(tup!(arr![],))),
        3 => Value::from(obj!{"p" => tup!(arr![],),}),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => tup!(arr![],)} } f()? }),
        5 => Value::from(try_arr![obj!{"p" => arr![]}]?),
        6 => Value::from(tup!(obj!{"p" => arr![]})),
        7 => Value::from(obj!{"p" => obj!{"p" => arr![]},}),
        8 => Value::from(obj!{"^" => obj!{"p" => arr![]}}),
        9 => Value::from(try_arr![{ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![]} } f()? }]?),
        10 => Value::from(tup!({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![]} } f()? },)),
        11 => Value::from(obj!{"p" => { fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![]} } f()? }}),
        12 => Value::from(obj!{"^" => { fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![]} } f()? }}),
        13 => Value::from(try_arr![try_arr![over::tup::Tup::empty()]?,]?),
        14 => Value::from(tup!(try_arr![over::tup::Tup::empty()]?)),
        15 => Value::from(obj!{"p" => try_arr![over::tup::Tup::empty()]?}),
        16 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => try_arr![over::tup::Tup::empty()]?} } f()? }),
        17 => Value::from(try_arr![tup!(over::tup::Tup::empty(),),]?),
        18 => Value::from(tup!(tup!(over::tup::Tup::empty(),))),
        _ => Value::from(obj!{"p" => tup!(over::tup::Tup::empty(),)}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b4(i: usize) -> R {
    Ok(match i {
        0 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => tup!(over::tup::Tup::empty(),)} } f()? }),
        1 => Value::from(try_arr![obj!{"p" => over::tup::Tup::empty()},]?),
        2 => Value::from(tup!(obj!{"p" => over::tup::Tup::empty()})),
        3 => Value::from(obj!{"p" => obj!{"p" => over::tup::Tup::empty()}}),
        4 => Value::from(obj!{"^" => obj!{"p" => over::tup::Tup::empty()},}),
        5 => Value::from(try_arr![{ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => over::tup::Tup::empty()} } f()? }]?),
        6 => Value::from(tup!({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => over::tup::Tup::empty()} } f()? })),
        7 => Value::from(obj!{"p" => { fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => over::tup::Tup::empty()} } f()? },}),
        8 => Value::from(obj!{"^" => { fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => over::tup::Tup::empty()} } f()? }}),
        9 => Value::from(try_arr![try_arr![obj!{}]?]?),
        10 => Value::from(tup!(try_arr![obj!{}]?,)),
        11 => Value::from(obj!{"p" => try_arr![obj!{}]?}),
        12 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => try_arr![obj!{}]?} } f()? }),
        13 => Value::from(try_arr![tup!(obj!{},)]?),
        14 => Value::from(tup!(tup!(obj!{},),)),
        15 => Value::from(obj!{"p" => tup!(obj!{},)}),
        16 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => tup!(obj!{},)} } f()? }),
        17 => Value::from(try_arr![obj!{"p" => obj!{}}]?),
        18 => Value::from(tup!(obj!{"p" => obj!{}},)),
        _ => Value::from(obj!{"p" => obj!{"p" => obj!{}}}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b5(i: usize) -> R {
    Ok(match i {
        0 => Value::from(obj!{"^" => obj!{"p" => obj!{}}}),
        1 => Value::from(try_arr![obj!{"^" => obj!{}},]?),
        2 => Value::from(tup!(obj!{"^" => obj!{}})),
        3 => Value::from(obj!{"p" => obj!{"^" => obj!{}}}),
        4 => Value::from(obj!{"^" => obj!{"^" => obj!{}},}),
        5 => Value::from(try_arr![1, 1]?),
        6 => Value::from(tup!(1, 1)),
        7 => Value::from(obj!{"p" => 1, "q" => 1,}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 1, "p" => 1} } f()? }),
        9 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 1, "^" => 1} } f()? }),
        10 => Value::from(try_arr!["s", 1]?),
        11 => Value::from(tup!("s", 1)),
        12 => Value::from(obj!{"p" => "s", "q" => 1,}),
        13 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "s", "p" => 1} } f()? }),
        14 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => "s", "^" => 1} } f()? }),
        15 => Value::from(try_arr![arr![], 1]?),
        16 => Value::from(tup!(arr![], 1)),
        17 => Value::from(obj!{"p" => arr![], "q" => 1,}),
        18 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![], "p" => 1} } f()? }),
        _ => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => arr![], "^" => 1} } f()? }),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b6(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![over::tup::Tup::empty(), 1]?),
        1 => Value::from(tup!(over::tup::Tup::empty(), 1)),
        2 => Value::from(obj!{"p" => over::tup::Tup::empty(), "q" => 1,}),
        3 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => over::tup::Tup::empty(), "p" => 1} } f()? }),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => over::tup::Tup::empty(), "^" => 1} } f()? }),
        5 => Value::from(try_arr![obj!{}, 1]?),
        6 => Value::from(tup!(obj!{}, 1)),
        7 => Value::from(obj!{"p" => obj!{}, "q" => 1,}),
        8 => Value::from(obj!{"^" => obj!{}, "p" => 1}),
        9 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => obj!{}, "^" => 1} } f()? }),
        10 => Value::from(try_arr![1, "s"]?),
        11 => Value::from(tup!(1, "s",)),
        12 => Value::from(obj!{"p" => 1, "q" => "s"}),
        13 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 1, "p" => "s"} } f()? }),
        14 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 1, "^" => "s"} } f()? }),
        15 => Value::from(try_arr!["s", "s"]?),
        16 => Value::from(tup!("s", "s",)),
        17 => Value::from(obj!{"p" => "s", "q" => "s"}),
        18 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "s", "p" => "s"} } f()? }),
        _ => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => "s", "^" => "s"} } f()? }),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b7(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![arr![], "s"]?),
        1 => Value::from(tup!(arr![], "s",)),
        2 => Value::from(obj!{"p" => arr![], "q" => "s"}),
        3 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![], "p" => "s"} } f()? }),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => arr![], "^" => "s"} } f()? }),
        5 => Value::from(try_arr![over::tup::Tup::empty(), "s"]?),
        6 => Value::from(tup!(over::tup::Tup::empty(), "s",)),
        7 => Value::from(obj!{"p" => over::tup::Tup::empty(), "q" => "s"}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => over::tup::Tup::empty(), "p" => "s"} } f()? }),
        9 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => over::tup::Tup::empty(), "^" => "s"} } f()? }),
        10 => Value::from(try_arr![obj!{}, "s"]?),
        11 => Value::from(tup!(obj!{}, "s",)),
        12 => Value::from(obj!{"p" => obj!{}, "q" => "s"}),
        13 => Value::from(obj!{"^" => obj!{}, "p" => "s"}),
        14 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => obj!{}, "^" => "s"} } f()? }),
        15 => Value::from(try_arr![1, arr![],]?),
        16 => Value::from(tup!(1, arr![])),
        17 => Value::from(obj!{"p" => 1, "q" => arr![]}),
        18 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 1, "p" => arr![]} } f()? }),
        _ => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 1, "^" => arr![]} } f()? }),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b8(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr!["s", arr![],]?),
        1 => Value::from(tup!("s", arr![])),
        2 => Value::from(obj!{"p" => "s", "q" => arr![]}),
        3 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "s", "p" => arr![]} } f()? }),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => "s", "^" => arr![]} } f()? }),
        5 => Value::from(try_arr![arr![], arr![],]?),
        6 => Value::from(tup!(arr![], arr![])),
        7 => Value::from(obj!{"p" => arr![], "q" => arr![]}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![], "p" => arr![]} } f()? }),
        9 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => arr![], "^" => arr![]} } f()? }),
        10 => Value::from(try_arr![over::tup::Tup::empty(), arr![],]?),
        11 => Value::from(tup!(over::tup::Tup::empty(), arr![])),
        12 => Value::from(obj!{"p" => over::tup::Tup::empty(), "q" => arr![]}),
        13 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => over::tup::Tup::empty(), "p" => arr![]} } f()? }),
        14 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => over::tup::Tup::empty(), "^" => arr![]} } f()? }),
        15 => Value::from(try_arr![obj!{}, arr![],]?),
        16 => Value::from(tup!(obj!{}, arr![])),
        17 => Value::from(obj!{"p" => obj!{}, "q" => arr![]}),
        18 => Value::from(obj!{"^" => obj!{}, "p" => arr![],}),
        _ => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => obj!{}, "^" => arr![]} } f()? }),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b9(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![1, over::tup::Tup::empty()]?),
        1 => Value::from(tup!(1, over::tup::Tup::empty())),
        2 => Value::from(obj!{"p" => 1, "q" => over::tup::Tup::empty(),}),
        3 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 1, "p" => over::tup::Tup::empty()} } f()? }),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 1, "^" => over::tup::Tup::empty()} } f()? }),
        5 => Value::from(try_arr!["s", over::tup::Tup::empty()]?),
        6 => Value::from(tup!("s", over::tup::Tup::empty())),
        7 => Value::from(obj!{"p" => "s", "q" => over::tup::Tup::empty(),}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "s", "p" => over::tup::Tup::empty()} } f()? }),
        9 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => "s", "^" => over::tup::Tup::empty()} } f()? }),
        10 => Value::from(try_arr![arr![], over::tup::Tup::empty()]?),
        11 => Value::from(tup!(arr![], over::tup::Tup::empty())),
        12 => Value::from(obj!{"p" => arr![], "q" => over::tup::Tup::empty(),}),
        13 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![], "p" => over::tup::Tup::empty()} } f()? }),
        14 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => arr![], "^" => over::tup::Tup::empty()} } f()? }),
        15 => Value::from(try_arr![over::tup::Tup::empty(), over::tup::Tup::empty()]?),
        16 => Value::from(tup!(over::tup::Tup::empty(), over::tup::Tup::empty())),
        17 => Value::from(obj!{"p" => over::tup::Tup::empty(), "q" => over::tup::Tup::empty(),}),
        18 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => over::tup::Tup::empty(), "p" => over::tup::Tup::empty()} } f()? }),
        _ => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => over::tup::Tup::empty(), "^" => over::tup::Tup::empty()} } f()? }),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b10(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![obj!{}, over::tup::Tup::empty()]?),
        1 => Value::from(tup!(obj!{}, over::tup::Tup::empty())),
        2 => Value::from(obj!{"p" => obj!{}, "q" => over::tup::Tup::empty(),}),
        3 => Value::from(obj!{"^" => obj!{}, "p" => over::tup::Tup::empty()}),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => obj!{}, "^" => over::tup::Tup::empty()} } f()? }),
        5 => Value::from(try_arr![1, obj!{}]?),
        6 => Value::from(tup!(1, obj!{},)),
        7 => Value::from(obj!{"p" => 1, "q" => obj!{}}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 1, "p" => obj!{}} } f()? }),
        9 => Value::from(obj!{"p" => 1, "^" => obj!{}}),
        10 => Value::from(try_arr!["s", obj!{},]?),
        11 => Value::from(tup!("s", obj!{})),
        12 => Value::from(obj!{"p" => "s", "q" => obj!{}}),
        13 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "s", "p" => obj!{}} } f()? }),
        14 => Value::from(obj!{"p" => "s", "^" => obj!{},}),
        15 => Value::from(try_arr![arr![], obj!{}]?),
        16 => Value::from(tup!(arr![], obj!{})),
        17 => Value::from(obj!{"p" => arr![], "q" => obj!{},}),
        18 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![], "p" => obj!{}} } f()? }),
        _ => Value::from(obj!{"p" => arr![], "^" => obj!{}}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b11(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![over::tup::Tup::empty(), obj!{}]?),
        1 => Value::from(tup!(over::tup::Tup::empty(), obj!{},)),
        2 => Value::from(obj!{"p" => over::tup::Tup::empty(), "q" => obj!{}}),
        3 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => over::tup::Tup::empty(), "p" => obj!{}} } f()? }),
        4 => Value::from(obj!{"p" => over::tup::Tup::empty(), "^" => obj!{}}),
        5 => Value::from(try_arr![obj!{}, obj!{},]?),
        6 => Value::from(tup!(obj!{}, obj!{})),
        7 => Value::from(obj!{"p" => obj!{}, "q" => obj!{}}),
        8 => Value::from(obj!{"^" => obj!{}, "p" => obj!{},}),
        9 => Value::from(obj!{"p" => obj!{}, "^" => obj!{}}),
        10 => Value::from(0u8),
        11 => Value::from(try_arr![0u8, 0u8]?),
        12 => Value::from(try_arr![0u8, 0u8, 0u8,]?),
        13 => Value::from(tup!(0u8, 0u8)),
        14 => Value::from(obj!{"p" => 0u8, "q" => 0u8}),
        15 => Value::from(try_arr![0u8, 9223372036854775808usize,]?),
        16 => Value::from(try_arr![9223372036854775808usize, 0u8, 9223372036854775808usize]?),
        17 => Value::from(tup!(9223372036854775808usize, 0u8)),
        18 => Value::from(obj!{"p" => 0u8, "q" => 9223372036854775808usize,}),
        _ => Value::from(try_arr![0u8, int!(7)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b12(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![int!(7), 0u8, int!(7)]?),
        1 => Value::from(tup!(int!(7), 0u8,)),
        2 => Value::from(obj!{"p" => 0u8, "q" => int!(7)}),
        3 => Value::from(try_arr![0u8, frac!(1, 2)]?),
        4 => Value::from(try_arr![frac!(1, 2), 0u8, frac!(1, 2),]?),
        5 => Value::from(tup!(frac!(1, 2), 0u8)),
        6 => Value::from(obj!{"p" => 0u8, "q" => frac!(1, 2)}),
        7 => Value::from(try_arr![0u8, "é\n\"$",]?),
        8 => Value::from(try_arr!["é\n\"$", 0u8, "é\n\"$"]?),
        9 => Value::from(tup!("é\n\"$", 0u8)),
        10 => Value::from(obj!{"p" => 0u8, "q" => "é\n\"$",}),
        11 => Value::from(obj!{"p" => 0u8, "^" => obj!{"z" => 0u8}}),
        12 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 0u8} } f()? }),
        13 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => 0u8} } f()? }),
        14 => Value::from(255u8),
        15 => Value::from(try_arr![255u8, 0u8]?),
        16 => Value::from(try_arr![0u8, 255u8, 0u8,]?),
        17 => Value::from(tup!(0u8, 255u8)),
        18 => Value::from(obj!{"p" => 255u8, "q" => 0u8}),
        _ => Value::from(try_arr![255u8, 9223372036854775808usize,]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b13(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![9223372036854775808usize, 255u8, 9223372036854775808usize]?),
        1 => Value::from(tup!(9223372036854775808usize, 255u8)),
        2 => Value::from(obj!{"p" => 255u8, "q" => 9223372036854775808usize,}),
        3 => Value::from(try_arr![255u8, int!(7)]?),
        4 => Value::from(try_arr![int!(7), 255u8, int!(7)]?),
        5 => Value::from(tup!(int!(7), 255u8,)),
        6 => Value::from(obj!{"p" => 255u8, "q" => int!(7)}),
        7 => Value::from(try_arr![255u8, frac!(1, 2)]?),
        8 => Value::from(try_arr![frac!(1, 2), 255u8, frac!(1, 2),]?),
        9 => Value::from(tup!(frac!(1, 2), 255u8)),
        10 => Value::from(obj!{"p" => 255u8, "q" => frac!(1, 2)}),
        11 => Value::from(try_arr![255u8, "é\n\"$",]?),
        12 => Value::from(try_arr!["é\n\"$", 255u8, "é\n\"$"]?),
        13 => Value::from(tup!("é\n\"$", 255u8)),
        14 => Value::from(obj!{"p" => 255u8, "q" => "é\n\"$",}),
        15 => Value::from(obj!{"p" => 255u8, "^" => obj!{"z" => 255u8}}),
        16 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 255u8} } f()? }),
        17 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => 255u8} } f()? }),
        18 => Value::from(65535u16),
        _ => Value::from(try_arr![65535u16, 0u8]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b14(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![0u8, 65535u16, 0u8,]?),
        1 => Value::from(tup!(0u8, 65535u16)),
        2 => Value::from(obj!{"p" => 65535u16, "q" => 0u8}),
        3 => Value::from(try_arr![65535u16, 9223372036854775808usize,]?),
        4 => Value::from(try_arr![9223372036854775808usize, 65535u16, 9223372036854775808usize]?),
        5 => Value::from(tup!(9223372036854775808usize, 65535u16)),
        6 => Value::from(obj!{"p" => 65535u16, "q" => 9223372036854775808usize,}),
        7 => Value::from(try_arr![65535u16, int!(7)]?),
        8 => Value::from(try_arr![int!(7), 65535u16, int!(7)]?),
        9 => Value::from(tup!(int!(7), 65535u16,)),
        10 => Value::from(obj!{"p" => 65535u16, "q" => int!(7)}),
        11 => Value::from(try_arr![65535u16, frac!(1, 2)]?),
        12 => Value::from(try_arr![frac!(1, 2), 65535u16, frac!(1, 2),]?),
        13 => Value::from(tup!(frac!(1, 2), 65535u16)),
        14 => Value::from(obj!{"p" => 65535u16, "q" => frac!(1, 2)}),
        15 => Value::from(try_arr![65535u16, "é\n\"$",]?),
        16 => Value::from(try_arr!["é\n\"$", 65535u16, "é\n\"$"]?),
        17 => Value::from(tup!("é\n\"$", 65535u16)),
        18 => Value::from(obj!{"p" => 65535u16, "q" => "é\n\"$",}),
        _ => Value::from(obj!{"p" => 65535u16, "^" => obj!{"z" => 65535u16}}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b15(i: usize) -> R {
    Ok(match i {
        0 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 65535u16} } f()? }),
        1 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => 65535u16} } f()? }),
        2 => Value::from(4294967295u32),
        3 => Value::from(try_arr![4294967295u32, 0u8]?),
        4 => Value::from(try_arr![0u8, 4294967295u32, 0u8,]?),
        5 => Value::from(tup!(0u8, 4294967295u32)),
        6 => Value::from(obj!{"p" => 4294967295u32, "q" => 0u8}),
        7 => Value::from(try_arr![4294967295u32, 9223372036854775808usize,]?),
        8 => Value::from(try_arr![9223372036854775808usize, 4294967295u32, 9223372036854775808usize]?),
        9 => Value::from(tup!(9223372036854775808usize, 4294967295u32)),
        10 => Value::from(obj!{"p" => 4294967295u32, "q" => 9223372036854775808usize,}),
        11 => Value::from(try_arr![4294967295u32, int!(7)]?),
        12 => Value::from(try_arr![int!(7), 4294967295u32, int!(7)]?),
        13 => Value::from(tup!(int!(7), 4294967295u32,)),
        14 => Value::from(obj!{"p" => 4294967295u32, "q" => int!(7)}),
        15 => Value::from(try_arr![4294967295u32, frac!(1, 2)]?),
        16 => Value::from(try_arr![frac!(1, 2), 4294967295u32, frac!(1, 2),]?),
        17 => Value::from(tup!(frac!(1, 2), 4294967295u32)),
        18 => Value::from(obj!{"p" => 4294967295u32, "q" => frac!(1, 2)}),
        _ => Value::from(try_arr![4294967295u32, "é\n\"$",]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b16(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr!["é\n\"$", 4294967295u32, "é\n\"$"]?),
        1 => Value::from(tup!("é\n\"$", 4294967295u32)),
        2 => Value::from(obj!{"p" => 4294967295u32, "q" => "é\n\"$",}),
        3 => Value::from(obj!{"p" => 4294967295u32, "^" => obj!{"z" => 4294967295u32}}),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 4294967295u32} } f()? }),
        5 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => 4294967295u32} } f()? }),
        6 => Value::from(18446744073709551615u64),
        7 => Value::from(try_arr![18446744073709551615u64, 0u8]?),
        8 => Value::from(try_arr![0u8, 18446744073709551615u64, 0u8,]?),
        9 => Value::from(tup!(0u8, 18446744073709551615u64)),
        10 => Value::from(obj!{"p" => 18446744073709551615u64, "q" => 0u8}),
        11 => Value::from(try_arr![18446744073709551615u64, 9223372036854775808usize,]?),
        12 => Value::from(try_arr![9223372036854775808usize, 18446744073709551615u64, 9223372036854775808usize]?),
        13 => Value::from(tup!(9223372036854775808usize, 18446744073709551615u64)),
        14 => Value::from(obj!{"p" => 18446744073709551615u64, "q" => 9223372036854775808usize,}),
        15 => Value::from(try_arr![18446744073709551615u64, int!(7)]?),
        16 => Value::from(try_arr![int!(7), 18446744073709551615u64, int!(7)]?),
        17 => Value::from(tup!(int!(7), 18446744073709551615u64,)),
        18 => Value::from(obj!{"p" => 18446744073709551615u64, "q" => int!(7)}),
        _ => Value::from(try_arr![18446744073709551615u64, frac!(1, 2)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b17(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![frac!(1, 2), 18446744073709551615u64, frac!(1, 2),]?),
        1 => Value::from(tup!(frac!(1, 2), 18446744073709551615u64)),
        2 => Value::from(obj!{"p" => 18446744073709551615u64, "q" => frac!(1, 2)}),
        3 => Value::from(try_arr![18446744073709551615u64, "é\n\"$",]?),
        4 => Value::from(try_arr!["é\n\"$", 18446744073709551615u64, "é\n\"$"]?),
        5 => Value::from(tup!("é\n\"$", 18446744073709551615u64)),
        6 => Value::from(obj!{"p" => 18446744073709551615u64, "q" => "é\n\"$",}),
        7 => Value::from(obj!{"p" => 18446744073709551615u64, "^" => obj!{"z" => 18446744073709551615u64}}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 18446744073709551615u64} } f()? }),
        9 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => 18446744073709551615u64} } f()? }),
        10 => Value::from(9223372036854775808usize),
        11 => Value::from(try_arr![9223372036854775808usize, 0u8]?),
        12 => Value::from(try_arr![0u8, 9223372036854775808usize, 0u8,]?),
        13 => Value::from(tup!(0u8, 9223372036854775808usize)),
        14 => Value::from(obj!{"p" => 9223372036854775808usize, "q" => 0u8}),
        15 => Value::from(try_arr![9223372036854775808usize, 9223372036854775808usize,]?),
        16 => Value::from(try_arr![9223372036854775808usize, 9223372036854775808usize, 9223372036854775808usize]?),
        17 => Value::from(tup!(9223372036854775808usize, 9223372036854775808usize)),
        18 => Value::from(obj!{"p" => 9223372036854775808usize, "q" => 9223372036854775808usize,}),
        _ => Value::from(try_arr![9223372036854775808usize, int!(7)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b18(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![int!(7), 9223372036854775808usize, int!(7)]?),
        1 => Value::from(tup!(int!(7), 9223372036854775808usize,)),
        2 => Value::from(obj!{"p" => 9223372036854775808usize, "q" => int!(7)}),
        3 => Value::from(try_arr![9223372036854775808usize, frac!(1, 2)]?),
        4 => Value::from(try_arr![frac!(1, 2), 9223372036854775808usize, frac!(1, 2),]?),
        5 => Value::from(tup!(frac!(1, 2), 9223372036854775808usize)),
        6 => Value::from(obj!{"p" => 9223372036854775808usize, "q" => frac!(1, 2)}),
        7 => Value::from(try_arr![9223372036854775808usize, "é\n\"$",]?),
        8 => Value::from(try_arr!["é\n\"$", 9223372036854775808usize, "é\n\"$"]?),
        9 => Value::from(tup!("é\n\"$", 9223372036854775808usize)),
        10 => Value::from(obj!{"p" => 9223372036854775808usize, "q" => "é\n\"$",}),
        11 => Value::from(obj!{"p" => 9223372036854775808usize, "^" => obj!{"z" => 9223372036854775808usize}}),
        12 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 9223372036854775808usize} } f()? }),
        13 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => 9223372036854775808usize} } f()? }),
        14 => Value::from(-128i8),
        15 => Value::from(try_arr![-128i8, 0u8]?),
        16 => Value::from(try_arr![0u8, -128i8, 0u8,]?),
        17 => Value::from(tup!(0u8, -128i8)),
        18 => Value::from(obj!{"p" => -128i8, "q" => 0u8}),
        _ => Value::from(try_arr![-128i8, 9223372036854775808usize,]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b19(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![9223372036854775808usize, -128i8, 9223372036854775808usize]?),
        1 => Value::from(tup!(9223372036854775808usize, -128i8)),
        2 => Value::from(obj!{"p" => -128i8, "q" => 9223372036854775808usize,}),
        3 => Value::from(try_arr![-128i8, int!(7)]?),
        4 => Value::from(try_arr![int!(7), -128i8, int!(7)]?),
        5 => Value::from(tup!(int!(7), -128i8,)),
        6 => Value::from(obj!{"p" => -128i8, "q" => int!(7)}),
        7 => Value::from(try_arr![-128i8, frac!(1, 2)]?),
        8 => Value::from(try_arr![frac!(1, 2), -128i8, frac!(1, 2),]?),
        9 => Value::from(tup!(frac!(1, 2), -128i8)),
        10 => Value::from(obj!{"p" => -128i8, "q" => frac!(1, 2)}),
        11 => Value::from(try_arr![-128i8, "é\n\"$",]?),
        12 => Value::from(try_arr!["é\n\"$", -128i8, "é\n\"$"]?),
        13 => Value::from(tup!("é\n\"$", -128i8)),
        14 => Value::from(obj!{"p" => -128i8, "q" => "é\n\"$",}),
        15 => Value::from(obj!{"p" => -128i8, "^" => obj!{"z" => -128i8}}),
        16 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => -128i8} } f()? }),
        17 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => -128i8} } f()? }),
        18 => Value::from(-32768i16),
        _ => Value::from(try_arr![-32768i16, 0u8]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b20(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![0u8, -32768i16, 0u8,]?),
        1 => Value::from(tup!(0u8, -32768i16)),
        2 => Value::from(obj!{"p" => -32768i16, "q" => 0u8}),
        3 => Value::from(try_arr![-32768i16, 9223372036854775808usize,]?),
        4 => Value::from(try_arr![9223372036854775808usize, -32768i16, 9223372036854775808usize]?),
        5 => Value::from(tup!(9223372036854775808usize, -32768i16)),
        6 => Value::from(obj!{"p" => -32768i16, "q" => 9223372036854775808usize,}),
        7 => Value::from(try_arr![-32768i16, int!(7)]?),
        8 => Value::from(try_arr![int!(7), -32768i16, int!(7)]?),
        9 => Value::from(tup!(int!(7), -32768i16,)),
        10 => Value::from(obj!{"p" => -32768i16, "q" => int!(7)}),
        11 => Value::from(try_arr![-32768i16, frac!(1, 2)]?),
        12 => Value::from(try_arr![frac!(1, 2), -32768i16, frac!(1, 2),]?),
        13 => Value::from(tup!(frac!(1, 2), -32768i16)),
        14 => Value::from(obj!{"p" => -32768i16, "q" => frac!(1, 2)}),
        15 => Value::from(try_arr![-32768i16, "é\n\"$",]?),
        16 => Value::from(try_arr!["é\n\"$", -32768i16, "é\n\"$"]?),
        17 => Value::from(tup!("é\n\"$", -32768i16)),
        18 => Value::from(obj!{"p" => -32768i16, "q" => "é\n\"$",}),
        _ => Value::from(obj!{"p" => -32768i16, "^" => obj!{"z" => -32768i16}}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b21(i: usize) -> R {
    Ok(match i {
        0 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => -32768i16} } f()? }),
        1 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => -32768i16} } f()? }),
        2 => Value::from(-2147483648i32),
        3 => Value::from(try_arr![-2147483648i32, 0u8]?),
        4 => Value::from(try_arr![0u8, -2147483648i32, 0u8,]?),
        5 => Value::from(tup!(0u8, -2147483648i32)),
        6 => Value::from(obj!{"p" => -2147483648i32, "q" => 0u8}),
        7 => Value::from(try_arr![-2147483648i32, 9223372036854775808usize,]?),
        8 => Value::from(try_arr![9223372036854775808usize, -2147483648i32, 9223372036854775808usize]?),
        9 => Value::from(tup!(9223372036854775808usize, -2147483648i32)),
        10 => Value::from(obj!{"p" => -2147483648i32, "q" => 9223372036854775808usize,}),
        11 => Value::from(try_arr![-2147483648i32, int!(7)]?),
        12 => Value::from(try_arr![int!(7), -2147483648i32, int!(7)]?),
        13 => Value::from(tup!(int!(7), -2147483648i32,)),
        14 => Value::from(obj!{"p" => -2147483648i32, "q" => int!(7)}),
        15 => Value::from(try_arr![-2147483648i32, frac!(1, 2)]?),
        16 => Value::from(try_arr![frac!(1, 2), -2147483648i32, frac!(1, 2),]?),
        17 => Value::from(tup!(frac!(1, 2), -2147483648i32)),
        18 => Value::from(obj!{"p" => -2147483648i32, "q" => frac!(1, 2)}),
        _ => Value::from(try_arr![-2147483648i32, "é\n\"$",]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b22(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr!["é\n\"$", -2147483648i32, "é\n\"$"]?),
        1 => Value::from(tup!("é\n\"$", -2147483648i32)),
        2 => Value::from(obj!{"p" => -2147483648i32, "q" => "é\n\"$",}),
        3 => Value::from(obj!{"p" => -2147483648i32, "^" => obj!{"z" => -2147483648i32}}),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => -2147483648i32} } f()? }),
        5 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => -2147483648i32} } f()? }),
        6 => Value::from(i64::min_value()),
        7 => Value::from(try_arr![i64::min_value(), 0u8]?),
        8 => Value::from(try_arr![0u8, i64::min_value(), 0u8,]?),
        9 => Value::from(tup!(0u8, i64::min_value())),
        10 => Value::from(obj!{"p" => i64::min_value(), "q" => 0u8}),
        11 => Value::from(try_arr![i64::min_value(), 9223372036854775808usize,]?),
        12 => Value::from(try_arr![9223372036854775808usize, i64::min_value(), 9223372036854775808usize]?),
        13 => Value::from(tup!(9223372036854775808usize, i64::min_value())),
        14 => Value::from(obj!{"p" => i64::min_value(), "q" => 9223372036854775808usize,}),
        15 => Value::from(try_arr![i64::min_value(), int!(7)]?),
        16 => Value::from(try_arr![int!(7), i64::min_value(), int!(7)]?),
        17 => Value::from(tup!(int!(7), i64::min_value(),)),
        18 => Value::from(obj!{"p" => i64::min_value(), "q" => int!(7)}),
        _ => Value::from(try_arr![i64::min_value(), frac!(1, 2)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b23(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![frac!(1, 2), i64::min_value(), frac!(1, 2),]?),
        1 => Value::from(tup!(frac!(1, 2), i64::min_value())),
        2 => Value::from(obj!{"p" => i64::min_value(), "q" => frac!(1, 2)}),
        3 => Value::from(try_arr![i64::min_value(), "é\n\"$",]?),
        4 => Value::from(try_arr!["é\n\"$", i64::min_value(), "é\n\"$"]?),
        5 => Value::from(tup!("é\n\"$", i64::min_value())),
        6 => Value::from(obj!{"p" => i64::min_value(), "q" => "é\n\"$",}),
        7 => Value::from(obj!{"p" => i64::min_value(), "^" => obj!{"z" => i64::min_value()}}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => i64::min_value()} } f()? }),
        9 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => i64::min_value()} } f()? }),
        10 => Value::from(9223372036854775807i64),
        11 => Value::from(try_arr![9223372036854775807i64, 0u8]?),
        12 => Value::from(try_arr![0u8, 9223372036854775807i64, 0u8,]?),
        13 => Value::from(tup!(0u8, 9223372036854775807i64)),
        14 => Value::from(obj!{"p" => 9223372036854775807i64, "q" => 0u8}),
        15 => Value::from(try_arr![9223372036854775807i64, 9223372036854775808usize,]?),
        16 => Value::from(try_arr![9223372036854775808usize, 9223372036854775807i64, 9223372036854775808usize]?),
        17 => Value::from(tup!(9223372036854775808usize, 9223372036854775807i64)),
        18 => Value::from(obj!{"p" => 9223372036854775807i64, "q" => 9223372036854775808usize,}),
        _ => Value::from(try_arr![9223372036854775807i64, int!(7)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b24(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![int!(7), 9223372036854775807i64, int!(7)]?),
        1 => Value::from(tup!(int!(7), 9223372036854775807i64,)),
        2 => Value::from(obj!{"p" => 9223372036854775807i64, "q" => int!(7)}),
        3 => Value::from(try_arr![9223372036854775807i64, frac!(1, 2)]?),
        4 => Value::from(try_arr![frac!(1, 2), 9223372036854775807i64, frac!(1, 2),]?),
        5 => Value::from(tup!(frac!(1, 2), 9223372036854775807i64)),
        6 => Value::from(obj!{"p" => 9223372036854775807i64, "q" => frac!(1, 2)}),
        7 => Value::from(try_arr![9223372036854775807i64, "é\n\"$",]?),
        8 => Value::from(try_arr!["é\n\"$", 9223372036854775807i64, "é\n\"$"]?),
        9 => Value::from(tup!("é\n\"$", 9223372036854775807i64)),
        10 => Value::from(obj!{"p" => 9223372036854775807i64, "q" => "é\n\"$",}),
        11 => Value::from(obj!{"p" => 9223372036854775807i64, "^" => obj!{"z" => 9223372036854775807i64}}),
        12 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => 9223372036854775807i64} } f()? }),
        13 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => 9223372036854775807i64} } f()? }),
        14 => Value::from(false),
        15 => Value::from(try_arr![false, 0u8]?),
        16 => Value::from(try_arr![0u8, false, 0u8,]?),
        17 => Value::from(tup!(0u8, false)),
        18 => Value::from(obj!{"p" => false, "q" => 0u8}),
        _ => Value::from(try_arr![false, 9223372036854775808usize,]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b25(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![9223372036854775808usize, false, 9223372036854775808usize]?),
        1 => Value::from(tup!(9223372036854775808usize, false)),
        2 => Value::from(obj!{"p" => false, "q" => 9223372036854775808usize,}),
        3 => Value::from(try_arr![false, int!(7)]?),
        4 => Value::from(try_arr![int!(7), false, int!(7)]?),
        5 => Value::from(tup!(int!(7), false,)),
        6 => Value::from(obj!{"p" => false, "q" => int!(7)}),
        7 => Value::from(try_arr![false, frac!(1, 2)]?),
        8 => Value::from(try_arr![frac!(1, 2), false, frac!(1, 2),]?),
        9 => Value::from(tup!(frac!(1, 2), false)),
        10 => Value::from(obj!{"p" => false, "q" => frac!(1, 2)}),
        11 => Value::from(try_arr![false, "é\n\"$",]?),
        12 => Value::from(try_arr!["é\n\"$", false, "é\n\"$"]?),
        13 => Value::from(tup!("é\n\"$", false)),
        14 => Value::from(obj!{"p" => false, "q" => "é\n\"$",}),
        15 => Value::from(obj!{"p" => false, "^" => obj!{"z" => false}}),
        16 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => false} } f()? }),
        17 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => false} } f()? }),
        18 => Value::from(true),
        _ => Value::from(try_arr![true, 0u8]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b26(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![0u8, true, 0u8,]?),
        1 => Value::from(tup!(0u8, true)),
        2 => Value::from(obj!{"p" => true, "q" => 0u8}),
        3 => Value::from(try_arr![true, 9223372036854775808usize,]?),
        4 => Value::from(try_arr![9223372036854775808usize, true, 9223372036854775808usize]?),
        5 => Value::from(tup!(9223372036854775808usize, true)),
        6 => Value::from(obj!{"p" => true, "q" => 9223372036854775808usize,}),
        7 => Value::from(try_arr![true, int!(7)]?),
        8 => Value::from(try_arr![int!(7), true, int!(7)]?),
        9 => Value::from(tup!(int!(7), true,)),
        10 => Value::from(obj!{"p" => true, "q" => int!(7)}),
        11 => Value::from(try_arr![true, frac!(1, 2)]?),
        12 => Value::from(try_arr![frac!(1, 2), true, frac!(1, 2),]?),
        13 => Value::from(tup!(frac!(1, 2), true)),
        14 => Value::from(obj!{"p" => true, "q" => frac!(1, 2)}),
        15 => Value::from(try_arr![true, "é\n\"$",]?),
        16 => Value::from(try_arr!["é\n\"$", true, "é\n\"$"]?),
        17 => Value::from(tup!("é\n\"$", true)),
        18 => Value::from(obj!{"p" => true, "q" => "é\n\"$",}),
        _ => Value::from(obj!{"p" => true, "^" => obj!{"z" => true}}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b27(i: usize) -> R {
    Ok(match i {
        0 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => true} } f()? }),
        1 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => true} } f()? }),
        2 => Value::from(int!(7)),
        3 => Value::from(try_arr![int!(7), 0u8]?),
        4 => Value::from(try_arr![0u8, int!(7), 0u8,]?),
        5 => Value::from(tup!(0u8, int!(7))),
        6 => Value::from(obj!{"p" => int!(7), "q" => 0u8}),
        7 => Value::from(try_arr![int!(7), 9223372036854775808usize,]?),
        8 => Value::from(try_arr![9223372036854775808usize, int!(7), 9223372036854775808usize]?),
        9 => Value::from(tup!(9223372036854775808usize, int!(7))),
        10 => Value::from(obj!{"p" => int!(7), "q" => 9223372036854775808usize,}),
        11 => Value::from(try_arr![int!(7), int!(7)]?),
        12 => Value::from(try_arr![int!(7), int!(7), int!(7)]?),
        13 => Value::from(tup!(int!(7), int!(7),)),
        14 => Value::from(obj!{"p" => int!(7), "q" => int!(7)}),
        15 => Value::from(try_arr![int!(7), frac!(1, 2)]?),
        16 => Value::from(try_arr![frac!(1, 2), int!(7), frac!(1, 2),]?),
        17 => Value::from(tup!(frac!(1, 2), int!(7))),
        18 => Value::from(obj!{"p" => int!(7), "q" => frac!(1, 2)}),
        _ => Value::from(try_arr![int!(7), "é\n\"$",]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b28(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr!["é\n\"$", int!(7), "é\n\"$"]?),
        1 => Value::from(tup!("é\n\"$", int!(7))),
        2 => Value::from(obj!{"p" => int!(7), "q" => "é\n\"$",}),
        3 => Value::from(obj!{"p" => int!(7), "^" => obj!{"z" => int!(7)}}),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => int!(7)} } f()? }),
        5 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => int!(7)} } f()? }),
        6 => Value::from(int!(-7i64)),
        7 => Value::from(try_arr![int!(-7i64), 0u8]?),
        8 => Value::from(try_arr![0u8, int!(-7i64), 0u8,]?),
        9 => Value::from(tup!(0u8, int!(-7i64))),
        10 => Value::from(obj!{"p" => int!(-7i64), "q" => 0u8}),
        11 => Value::from(try_arr![int!(-7i64), 9223372036854775808usize,]?),
        12 => Value::from(try_arr![9223372036854775808usize, int!(-7i64), 9223372036854775808usize]?),
        13 => Value::from(tup!(9223372036854775808usize, int!(-7i64))),
        14 => Value::from(obj!{"p" => int!(-7i64), "q" => 9223372036854775808usize,}),
        15 => Value::from(try_arr![int!(-7i64), int!(7)]?),
        16 => Value::from(try_arr![int!(7), int!(-7i64), int!(7)]?),
        17 => Value::from(tup!(int!(7), int!(-7i64),)),
        18 => Value::from(obj!{"p" => int!(-7i64), "q" => int!(7)}),
        _ => Value::from(try_arr![int!(-7i64), frac!(1, 2)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b29(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![frac!(1, 2), int!(-7i64), frac!(1, 2),]?),
        1 => Value::from(tup!(frac!(1, 2), int!(-7i64))),
        2 => Value::from(obj!{"p" => int!(-7i64), "q" => frac!(1, 2)}),
        3 => Value::from(try_arr![int!(-7i64), "é\n\"$",]?),
        4 => Value::from(try_arr!["é\n\"$", int!(-7i64), "é\n\"$"]?),
        5 => Value::from(tup!("é\n\"$", int!(-7i64))),
        6 => Value::from(obj!{"p" => int!(-7i64), "q" => "é\n\"$",}),
        7 => Value::from(obj!{"p" => int!(-7i64), "^" => obj!{"z" => int!(-7i64)}}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => int!(-7i64)} } f()? }),
        9 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => int!(-7i64)} } f()? }),
        10 => Value::from(int!(18446744073709551615u64) * int!(18446744073709551615u64)),
        11 => Value::from(try_arr![int!(18446744073709551615u64) * int!(18446744073709551615u64), 0u8]?),
        12 => Value::from(try_arr![0u8, int!(18446744073709551615u64) * int!(18446744073709551615u64), 0u8,]?),
        13 => Value::from(tup!(0u8, int!(18446744073709551615u64) * int!(18446744073709551615u64))),
        14 => Value::from(obj!{"p" => int!(18446744073709551615u64) * int!(18446744073709551615u64), "q" => 0u8}),
        15 => Value::from(try_arr![int!(18446744073709551615u64) * int!(18446744073709551615u64), 9223372036854775808usize,]?),
        16 => Value::from(try_arr![9223372036854775808usize, int!(18446744073709551615u64) * int!(18446744073709551615u64), 9223372036854775808usize]?),
        17 => Value::from(tup!(9223372036854775808usize, int!(18446744073709551615u64) * int!(18446744073709551615u64))),
        18 => Value::from(obj!{"p" => int!(18446744073709551615u64) * int!(18446744073709551615u64), "q" => 9223372036854775808usize,}),
        _ => Value::from(try_arr![int!(18446744073709551615u64) * int!(18446744073709551615u64), int!(7)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b30(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![int!(7), int!(18446744073709551615u64) * int!(18446744073709551615u64), int!(7)]?),
        1 => Value::from(tup!(int!(7), int!(18446744073709551615u64) * int!(18446744073709551615u64),)),
        2 => Value::from(obj!{"p" => int!(18446744073709551615u64) * int!(18446744073709551615u64), "q" => int!(7)}),
        3 => Value::from(try_arr![int!(18446744073709551615u64) * int!(18446744073709551615u64), frac!(1, 2)]?),
        4 => Value::from(try_arr![frac!(1, 2), int!(18446744073709551615u64) * int!(18446744073709551615u64), frac!(1, 2),]?),
        5 => Value::from(tup!(frac!(1, 2), int!(18446744073709551615u64) * int!(18446744073709551615u64))),
        6 => Value::from(obj!{"p" => int!(18446744073709551615u64) * int!(18446744073709551615u64), "q" => frac!(1, 2)}),
        7 => Value::from(try_arr![int!(18446744073709551615u64) * int!(18446744073709551615u64), "é\n\"$",]?),
        8 => Value::from(try_arr!["é\n\"$", int!(18446744073709551615u64) * int!(18446744073709551615u64), "é\n\"$"]?),
        9 => Value::from(tup!("é\n\"$", int!(18446744073709551615u64) * int!(18446744073709551615u64))),
        10 => Value::from(obj!{"p" => int!(18446744073709551615u64) * int!(18446744073709551615u64), "q" => "é\n\"$",}),
        11 => Value::from(obj!{"p" => int!(18446744073709551615u64) * int!(18446744073709551615u64), "^" => obj!{"z" => int!(18446744073709551615u64) * int!(18446744073709551615u64)}}),
        12 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => int!(18446744073709551615u64) * int!(18446744073709551615u64)} } f()? }),
        13 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => int!(18446744073709551615u64) * int!(18446744073709551615u64)} } f()? }),
        14 => Value::from(frac!(1, 2)),
        15 => Value::from(try_arr![frac!(1, 2), 0u8]?),
        16 => Value::from(try_arr![0u8, frac!(1, 2), 0u8,]?),
        17 => Value::from(tup!(0u8, frac!(1, 2))),
        18 => Value::from(obj!{"p" => frac!(1, 2), "q" => 0u8}),
        _ => Value::from(try_arr![frac!(1, 2), 9223372036854775808usize,]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b31(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![9223372036854775808usize, frac!(1, 2), 9223372036854775808usize]?),
        1 => Value::from(tup!(9223372036854775808usize, frac!(1, 2))),
        2 => Value::from(obj!{"p" => frac!(1, 2), "q" => 9223372036854775808usize,}),
        3 => Value::from(try_arr![frac!(1, 2), int!(7)]?),
        4 => Value::from(try_arr![int!(7), frac!(1, 2), int!(7)]?),
        5 => Value::from(tup!(int!(7), frac!(1, 2),)),
        6 => Value::from(obj!{"p" => frac!(1, 2), "q" => int!(7)}),
        7 => Value::from(try_arr![frac!(1, 2), frac!(1, 2)]?),
        8 => Value::from(try_arr![frac!(1, 2), frac!(1, 2), frac!(1, 2),]?),
        9 => Value::from(tup!(frac!(1, 2), frac!(1, 2))),
        10 => Value::from(obj!{"p" => frac!(1, 2), "q" => frac!(1, 2)}),
        11 => Value::from(try_arr![frac!(1, 2), "é\n\"$",]?),
        12 => Value::from(try_arr!["é\n\"$", frac!(1, 2), "é\n\"$"]?),
        13 => Value::from(tup!("é\n\"$", frac!(1, 2))),
        14 => Value::from(obj!{"p" => frac!(1, 2), "q" => "é\n\"$",}),
        15 => Value::from(obj!{"p" => frac!(1, 2), "^" => obj!{"z" => frac!(1, 2)}}),
        16 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => frac!(1, 2)} } f()? }),
        17 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => frac!(1, 2)} } f()? }),
        18 => Value::from(frac!(-6, 4)),
        _ => Value::from(try_arr![frac!(-6, 4), 0u8]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b32(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![0u8, frac!(-6, 4), 0u8,]?),
        1 => Value::from(tup!(0u8, frac!(-6, 4))),
        2 => Value::from(obj!{"p" => frac!(-6, 4), "q" => 0u8}),
        3 => Value::from(try_arr![frac!(-6, 4), 9223372036854775808usize,]?),
        4 => Value::from(try_arr![9223372036854775808usize, frac!(-6, 4), 9223372036854775808usize]?),
        5 => Value::from(tup!(9223372036854775808usize, frac!(-6, 4))),
        6 => Value::from(obj!{"p" => frac!(-6, 4), "q" => 9223372036854775808usize,}),
        7 => Value::from(try_arr![frac!(-6, 4), int!(7)]?),
        8 => Value::from(try_arr![int!(7), frac!(-6, 4), int!(7)]?),
        9 => Value::from(tup!(int!(7), frac!(-6, 4),)),
        10 => Value::from(obj!{"p" => frac!(-6, 4), "q" => int!(7)}),
        11 => Value::from(try_arr![frac!(-6, 4), frac!(1, 2)]?),
        12 => Value::from(try_arr![frac!(1, 2), frac!(-6, 4), frac!(1, 2),]?),
        13 => Value::from(tup!(frac!(1, 2), frac!(-6, 4))),
        14 => Value::from(obj!{"p" => frac!(-6, 4), "q" => frac!(1, 2)}),
        15 => Value::from(try_arr![frac!(-6, 4), "é\n\"$",]?),
        16 => Value::from(try_arr!["é\n\"$", frac!(-6, 4), "é\n\"$"]?),
        17 => Value::from(tup!("é\n\"$", frac!(-6, 4))),
        18 => Value::from(obj!{"p" => frac!(-6, 4), "q" => "é\n\"$",}),
        _ => Value::from(obj!{"p" => frac!(-6, 4), "^" => obj!{"z" => frac!(-6, 4)}}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b33(i: usize) -> R {
    Ok(match i {
        0 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => frac!(-6, 4)} } f()? }),
        1 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => frac!(-6, 4)} } f()? }),
        2 => Value::from(frac!(4, -2)),
        3 => Value::from(try_arr![frac!(4, -2), 0u8]?),
        4 => Value::from(try_arr![0u8, frac!(4, -2), 0u8,]?),
        5 => Value::from(tup!(0u8, frac!(4, -2))),
        6 => Value::from(obj!{"p" => frac!(4, -2), "q" => 0u8}),
        7 => Value::from(try_arr![frac!(4, -2), 9223372036854775808usize,]?),
        8 => Value::from(try_arr![9223372036854775808usize, frac!(4, -2), 9223372036854775808usize]?),
        9 => Value::from(tup!(9223372036854775808usize, frac!(4, -2))),
        10 => Value::from(obj!{"p" => frac!(4, -2), "q" => 9223372036854775808usize,}),
        11 => Value::from(try_arr![frac!(4, -2), int!(7)]?),
        12 => Value::from(try_arr![int!(7), frac!(4, -2), int!(7)]?),
        13 => Value::from(tup!(int!(7), frac!(4, -2),)),
        14 => Value::from(obj!{"p" => frac!(4, -2), "q" => int!(7)}),
        15 => Value::from(try_arr![frac!(4, -2), frac!(1, 2)]?),
        16 => Value::from(try_arr![frac!(1, 2), frac!(4, -2), frac!(1, 2),]?),
        17 => Value::from(tup!(frac!(1, 2), frac!(4, -2))),
        18 => Value::from(obj!{"p" => frac!(4, -2), "q" => frac!(1, 2)}),
        _ => Value::from(try_arr![frac!(4, -2), "é\n\"$",]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b34(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr!["é\n\"$", frac!(4, -2), "é\n\"$"]?),
        1 => Value::from(tup!("é\n\"$", frac!(4, -2))),
        2 => Value::from(obj!{"p" => frac!(4, -2), "q" => "é\n\"$",}),
        3 => Value::from(obj!{"p" => frac!(4, -2), "^" => obj!{"z" => frac!(4, -2)}}),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => frac!(4, -2)} } f()? }),
        5 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => frac!(4, -2)} } f()? }),
        6 => Value::from(frac!(int!(1), 3u8)),
        7 => Value::from(try_arr![frac!(int!(1), 3u8), 0u8]?),
        8 => Value::from(try_arr![0u8, frac!(int!(1), 3u8), 0u8,]?),
        9 => Value::from(tup!(0u8, frac!(int!(1), 3u8))),
        10 => Value::from(obj!{"p" => frac!(int!(1), 3u8), "q" => 0u8}),
        11 => Value::from(try_arr![frac!(int!(1), 3u8), 9223372036854775808usize,]?),
        12 => Value::from(try_arr![9223372036854775808usize, frac!(int!(1), 3u8), 9223372036854775808usize]?),
        13 => Value::from(tup!(9223372036854775808usize, frac!(int!(1), 3u8))),
        14 => Value::from(obj!{"p" => frac!(int!(1), 3u8), "q" => 9223372036854775808usize,}),
        15 => Value::from(try_arr![frac!(int!(1), 3u8), int!(7)]?),
        16 => Value::from(try_arr![int!(7), frac!(int!(1), 3u8), int!(7)]?),
        17 => Value::from(tup!(int!(7), frac!(int!(1), 3u8),)),
        18 => Value::from(obj!{"p" => frac!(int!(1), 3u8), "q" => int!(7)}),
        _ => Value::from(try_arr![frac!(int!(1), 3u8), frac!(1, 2)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b35(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![frac!(1, 2), frac!(int!(1), 3u8), frac!(1, 2),]?),
        1 => Value::from(tup!(frac!(1, 2), frac!(int!(1), 3u8))),
        2 => Value::from(obj!{"p" => frac!(int!(1), 3u8), "q" => frac!(1, 2)}),
        3 => Value::from(try_arr![frac!(int!(1), 3u8), "é\n\"$",]?),
        4 => Value::from(try_arr!["é\n\"$", frac!(int!(1), 3u8), "é\n\"$"]?),
        5 => Value::from(tup!("é\n\"$", frac!(int!(1), 3u8))),
        6 => Value::from(obj!{"p" => frac!(int!(1), 3u8), "q" => "é\n\"$",}),
        7 => Value::from(obj!{"p" => frac!(int!(1), 3u8), "^" => obj!{"z" => frac!(int!(1), 3u8)}}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => frac!(int!(1), 3u8)} } f()? }),
        9 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => frac!(int!(1), 3u8)} } f()? }),
        10 => Value::from(frac!(0, 5)),
        11 => Value::from(try_arr![frac!(0, 5), 0u8]?),
        12 => Value::from(try_arr![0u8, frac!(0, 5), 0u8,]?),
        13 => Value::from(tup!(0u8, frac!(0, 5))),
        14 => Value::from(obj!{"p" => frac!(0, 5), "q" => 0u8}),
        15 => Value::from(try_arr![frac!(0, 5), 9223372036854775808usize,]?),
        16 => Value::from(try_arr![9223372036854775808usize, frac!(0, 5), 9223372036854775808usize]?),
        17 => Value::from(tup!(9223372036854775808usize, frac!(0, 5))),
        18 => Value::from(obj!{"p" => frac!(0, 5), "q" => 9223372036854775808usize,}),
        _ => Value::from(try_arr![frac!(0, 5), int!(7)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b36(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![int!(7), frac!(0, 5), int!(7)]?),
        1 => Value::from(tup!(int!(7), frac!(0, 5),)),
        2 => Value::from(obj!{"p" => frac!(0, 5), "q" => int!(7)}),
        3 => Value::from(try_arr![frac!(0, 5), frac!(1, 2)]?),
        4 => Value::from(try_arr![frac!(1, 2), frac!(0, 5), frac!(1, 2),]?),
        5 => Value::from(tup!(frac!(1, 2), frac!(0, 5))),
        6 => Value::from(obj!{"p" => frac!(0, 5), "q" => frac!(1, 2)}),
        7 => Value::from(try_arr![frac!(0, 5), "é\n\"$",]?),
        8 => Value::from(try_arr!["é\n\"$", frac!(0, 5), "é\n\"$"]?),
        9 => Value::from(tup!("é\n\"$", frac!(0, 5))),
        10 => Value::from(obj!{"p" => frac!(0, 5), "q" => "é\n\"$",}),
        11 => Value::from(obj!{"p" => frac!(0, 5), "^" => obj!{"z" => frac!(0, 5)}}),
        12 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => frac!(0, 5)} } f()? }),
        13 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => frac!(0, 5)} } f()? }),
        14 => Value::from("é\n\"$"),
        15 => Value::from(try_arr!["é\n\"$", 0u8]?),
        16 => Value::from(try_arr![0u8, "é\n\"$", 0u8,]?),
        17 => Value::from(tup!(0u8, "é\n\"$")),
        18 => Value::from(obj!{"p" => "é\n\"$", "q" => 0u8}),
        _ => Value::from(try_arr!["é\n\"$", 9223372036854775808usize,]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b37(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![9223372036854775808usize, "é\n\"$", 9223372036854775808usize]?),
        1 => Value::from(tup!(9223372036854775808usize, "é\n\"$")),
        2 => Value::from(obj!{"p" => "é\n\"$", "q" => 9223372036854775808usize,}),
        3 => Value::from(try_arr!["é\n\"$", int!(7)]?),
        4 => Value::from(try_arr![int!(7), "é\n\"$", int!(7)]?),
        5 => Value::from(tup!(int!(7), "é\n\"$",)),
        6 => Value::from(obj!{"p" => "é\n\"$", "q" => int!(7)}),
        7 => Value::from(try_arr!["é\n\"$", frac!(1, 2)]?),
        8 => Value::from(try_arr![frac!(1, 2), "é\n\"$", frac!(1, 2),]?),
        9 => Value::from(tup!(frac!(1, 2), "é\n\"$")),
        10 => Value::from(obj!{"p" => "é\n\"$", "q" => frac!(1, 2)}),
        11 => Value::from(try_arr!["é\n\"$", "é\n\"$",]?),
        12 => Value::from(try_arr!["é\n\"$", "é\n\"$", "é\n\"$"]?),
        13 => Value::from(tup!("é\n\"$", "é\n\"$")),
        14 => Value::from(obj!{"p" => "é\n\"$", "q" => "é\n\"$",}),
        15 => Value::from(obj!{"p" => "é\n\"$", "^" => obj!{"z" => "é\n\"$"}}),
        16 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "é\n\"$"} } f()? }),
        17 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => "é\n\"$"} } f()? }),
        18 => Value::from(String::from("")),
        _ => Value::from(try_arr![String::from(""), 0u8]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b38(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![0u8, String::from(""), 0u8,]?),
        1 => Value::from(tup!(0u8, String::from(""))),
        2 => Value::from(obj!{"p" => String::from(""), "q" => 0u8}),
        3 => Value::from(try_arr![String::from(""), 9223372036854775808usize,]?),
        4 => Value::from(try_arr![9223372036854775808usize, String::from(""), 9223372036854775808usize]?),
        5 => Value::from(tup!(9223372036854775808usize, String::from(""))),
        6 => Value::from(obj!{"p" => String::from(""), "q" => 9223372036854775808usize,}),
        7 => Value::from(try_arr![String::from(""), int!(7)]?),
        8 => Value::from(try_arr![int!(7), String::from(""), int!(7)]?),
        9 => Value::from(tup!(int!(7), String::from(""),)),
        10 => Value::from(obj!{"p" => String::from(""), "q" => int!(7)}),
        11 => Value::from(try_arr![String::from(""), frac!(1, 2)]?),
        12 => Value::from(try_arr![frac!(1, 2), String::from(""), frac!(1, 2),]?),
        13 => Value::from(tup!(frac!(1, 2), String::from(""))),
        14 => Value::from(obj!{"p" => String::from(""), "q" => frac!(1, 2)}),
        15 => Value::from(try_arr![String::from(""), "é\n\"$",]?),
        16 => Value::from(try_arr!["é\n\"$", String::from(""), "é\n\"$"]?),
        17 => Value::from(tup!("é\n\"$", String::from(""))),
        18 => Value::from(obj!{"p" => String::from(""), "q" => "é\n\"$",}),
        _ => Value::from(obj!{"p" => String::from(""), "^" => obj!{"z" => String::from("")}}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b39(i: usize) -> R {
    Ok(match i {
        0 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => String::from("")} } f()? }),
        1 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => String::from("")} } f()? }),
        2 => Value::from(String::from("a b")),
        3 => Value::from(try_arr![String::from("a b"), 0u8]?),
        4 => Value::from(try_arr![0u8, String::from("a b"), 0u8,]?),
        5 => Value::from(tup!(0u8, String::from("a b"))),
        6 => Value::from(obj!{"p" => String::from("a b"), "q" => 0u8}),
        7 => Value::from(try_arr![String::from("a b"), 9223372036854775808usize,]?),
        8 => Value::from(try_arr![9223372036854775808usize, String::from("a b"), 9223372036854775808usize]?),
        9 => Value::from(tup!(9223372036854775808usize, String::from("a b"))),
        10 => Value::from(obj!{"p" => String::from("a b"), "q" => 9223372036854775808usize,}),
        11 => Value::from(try_arr![String::from("a b"), int!(7)]?),
        12 => Value::from(try_arr![int!(7), String::from("a b"), int!(7)]?),
        13 => Value::from(tup!(int!(7), String::from("a b"),)),
        14 => Value::from(obj!{"p" => String::from("a b"), "q" => int!(7)}),
        15 => Value::from(try_arr![String::from("a b"), frac!(1, 2)]?),
        16 => Value::from(try_arr![frac!(1, 2), String::from("a b"), frac!(1, 2),]?),
        17 => Value::from(tup!(frac!(1, 2), String::from("a b"))),
        18 => Value::from(obj!{"p" => String::from("a b"), "q" => frac!(1, 2)}),
        _ => Value::from(try_arr![String::from("a b"), "é\n\"$",]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b40(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr!["é\n\"$", String::from("a b"), "é\n\"$"]?),
        1 => Value::from(tup!("é\n\"$", String::from("a b"))),
        2 => Value::from(obj!{"p" => String::from("a b"), "q" => "é\n\"$",}),
        3 => Value::from(obj!{"p" => String::from("a b"), "^" => obj!{"z" => String::from("a b")}}),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => String::from("a b")} } f()? }),
        5 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => String::from("a b")} } f()? }),
        6 => Value::from("null"),
        7 => Value::from(try_arr!["null", 0u8]?),
        8 => Value::from(try_arr![0u8, "null", 0u8,]?),
        9 => Value::from(tup!(0u8, "null")),
        10 => Value::from(obj!{"p" => "null", "q" => 0u8}),
        11 => Value::from(try_arr!["null", 9223372036854775808usize,]?),
        12 => Value::from(try_arr![9223372036854775808usize, "null", 9223372036854775808usize]?),
        13 => Value::from(tup!(9223372036854775808usize, "null")),
        14 => Value::from(obj!{"p" => "null", "q" => 9223372036854775808usize,}),
        15 => Value::from(try_arr!["null", int!(7)]?),
        16 => Value::from(try_arr![int!(7), "null", int!(7)]?),
        17 => Value::from(tup!(int!(7), "null",)),
        18 => Value::from(obj!{"p" => "null", "q" => int!(7)}),
        _ => Value::from(try_arr!["null", frac!(1, 2)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b41(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![frac!(1, 2), "null", frac!(1, 2),]?),
        1 => Value::from(tup!(frac!(1, 2), "null")),
        2 => Value::from(obj!{"p" => "null", "q" => frac!(1, 2)}),
        3 => Value::from(try_arr!["null", "é\n\"$",]?),
        4 => Value::from(try_arr!["é\n\"$", "null", "é\n\"$"]?),
        5 => Value::from(tup!("é\n\"$", "null")),
        6 => Value::from(obj!{"p" => "null", "q" => "é\n\"$",}),
        7 => Value::from(obj!{"p" => "null", "^" => obj!{"z" => "null"}}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "null"} } f()? }),
        9 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => "null"} } f()? }),
        10 => Value::from("^"),
        11 => Value::from(try_arr!["^", 0u8]?),
        12 => Value::from(try_arr![0u8, "^", 0u8,]?),
        13 => Value::from(tup!(0u8, "^")),
        14 => Value::from(obj!{"p" => "^", "q" => 0u8}),
        15 => Value::from(try_arr!["^", 9223372036854775808usize,]?),
        16 => Value::from(try_arr![9223372036854775808usize, "^", 9223372036854775808usize]?),
        17 => Value::from(tup!(9223372036854775808usize, "^")),
        18 => Value::from(obj!{"p" => "^", "q" => 9223372036854775808usize,}),
        _ => Value::from(try_arr!["^", int!(7)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b42(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![int!(7), "^", int!(7)]?),
        1 => Value::from(tup!(int!(7), "^",)),
        2 => Value::from(obj!{"p" => "^", "q" => int!(7)}),
        3 => Value::from(try_arr!["^", frac!(1, 2)]?),
        4 => Value::from(try_arr![frac!(1, 2), "^", frac!(1, 2),]?),
        5 => Value::from(tup!(frac!(1, 2), "^")),
        6 => Value::from(obj!{"p" => "^", "q" => frac!(1, 2)}),
        7 => Value::from(try_arr!["^", "é\n\"$",]?),
        8 => Value::from(try_arr!["é\n\"$", "^", "é\n\"$"]?),
        9 => Value::from(tup!("é\n\"$", "^")),
        10 => Value::from(obj!{"p" => "^", "q" => "é\n\"$",}),
        11 => Value::from(obj!{"p" => "^", "^" => obj!{"z" => "^"}}),
        12 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => "^"} } f()? }),
        13 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => "^"} } f()? }),
        14 => Value::Null,
        15 => Value::from(try_arr![Value::Null, 0u8]?),
        16 => Value::from(try_arr![0u8, Value::Null, 0u8,]?),
        17 => Value::from(tup!(0u8, Value::Null)),
        18 => Value::from(obj!{"p" => Value::Null, "q" => 0u8}),
        _ => Value::from(try_arr![Value::Null, 9223372036854775808usize,]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b43(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![9223372036854775808usize, Value::Null, 9223372036854775808usize]?),
        1 => Value::from(tup!(9223372036854775808usize, Value::Null)),
        2 => Value::from(obj!{"p" => Value::Null, "q" => 9223372036854775808usize,}),
        3 => Value::from(try_arr![Value::Null, int!(7)]?),
        4 => Value::from(try_arr![int!(7), Value::Null, int!(7)]?),
        5 => Value::from(tup!(int!(7), Value::Null,)),
        6 => Value::from(obj!{"p" => Value::Null, "q" => int!(7)}),
        7 => Value::from(try_arr![Value::Null, frac!(1, 2)]?),
        8 => Value::from(try_arr![frac!(1, 2), Value::Null, frac!(1, 2),]?),
        9 => Value::from(tup!(frac!(1, 2), Value::Null)),
        10 => Value::from(obj!{"p" => Value::Null, "q" => frac!(1, 2)}),
        11 => Value::from(try_arr![Value::Null, "é\n\"$",]?),
        12 => Value::from(try_arr!["é\n\"$", Value::Null, "é\n\"$"]?),
        13 => Value::from(tup!("é\n\"$", Value::Null)),
        14 => Value::from(obj!{"p" => Value::Null, "q" => "é\n\"$",}),
        15 => Value::from(obj!{"p" => Value::Null, "^" => obj!{"z" => Value::Null}}),
        16 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => Value::Null} } f()? }),
        17 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => Value::Null} } f()? }),
        18 => Value::from(Value::Bool(true)),
        _ => Value::from(try_arr![Value::Bool(true), 0u8]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b44(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![0u8, Value::Bool(true), 0u8,]?),
        1 => Value::from(tup!(0u8, Value::Bool(true))),
        2 => Value::from(obj!{"p" => Value::Bool(true), "q" => 0u8}),
        3 => Value::from(try_arr![Value::Bool(true), 9223372036854775808usize,]?),
        4 => Value::from(try_arr![9223372036854775808usize, Value::Bool(true), 9223372036854775808usize]?),
        5 => Value::from(tup!(9223372036854775808usize, Value::Bool(true))),
        6 => Value::from(obj!{"p" => Value::Bool(true), "q" => 9223372036854775808usize,}),
        7 => Value::from(try_arr![Value::Bool(true), int!(7)]?),
        8 => Value::from(try_arr![int!(7), Value::Bool(true), int!(7)]?),
        9 => Value::from(tup!(int!(7), Value::Bool(true),)),
        10 => Value::from(obj!{"p" => Value::Bool(true), "q" => int!(7)}),
        11 => Value::from(try_arr![Value::Bool(true), frac!(1, 2)]?),
        12 => Value::from(try_arr![frac!(1, 2), Value::Bool(true), frac!(1, 2),]?),
        13 => Value::from(tup!(frac!(1, 2), Value::Bool(true))),
        14 => Value::from(obj!{"p" => Value::Bool(true), "q" => frac!(1, 2)}),
        15 => Value::from(try_arr![Value::Bool(true), "é\n\"$",]?),
        16 => Value::from(try_arr!["é\n\"$", Value::Bool(true), "é\n\"$"]?),
        17 => Value::from(tup!("é\n\"$", Value::Bool(true))),
        18 => Value::from(obj!{"p" => Value::Bool(true), "q" => "é\n\"$",}),
        _ => Value::from(obj!{"p" => Value::Bool(true), "^" => obj!{"z" => Value::Bool(true)}}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b45(i: usize) -> R {
    Ok(match i {
        0 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => Value::Bool(true)} } f()? }),
        1 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => Value::Bool(true)} } f()? }),
        2 => Value::from(Value::from("x")),
        3 => Value::from(try_arr![Value::from("x"), 0u8]?),
        4 => Value::from(try_arr![0u8, Value::from("x"), 0u8,]?),
        5 => Value::from(tup!(0u8, Value::from("x"))),
        6 => Value::from(obj!{"p" => Value::from("x"), "q" => 0u8}),
        7 => Value::from(try_arr![Value::from("x"), 9223372036854775808usize,]?),
        8 => Value::from(try_arr![9223372036854775808usize, Value::from("x"), 9223372036854775808usize]?),
        9 => Value::from(tup!(9223372036854775808usize, Value::from("x"))),
        10 => Value::from(obj!{"p" => Value::from("x"), "q" => 9223372036854775808usize,}),
        11 => Value::from(try_arr![Value::from("x"), int!(7)]?),
        12 => Value::from(try_arr![int!(7), Value::from("x"), int!(7)]?),
        13 => Value::from(tup!(int!(7), Value::from("x"),)),
        14 => Value::from(obj!{"p" => Value::from("x"), "q" => int!(7)}),
        15 => Value::from(try_arr![Value::from("x"), frac!(1, 2)]?),
        16 => Value::from(try_arr![frac!(1, 2), Value::from("x"), frac!(1, 2),]?),
        17 => Value::from(tup!(frac!(1, 2), Value::from("x"))),
        18 => Value::from(obj!{"p" => Value::from("x"), "q" => frac!(1, 2)}),
        _ => Value::from(try_arr![Value::from("x"), "é\n\"$",]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b46(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr!["é\n\"$", Value::from("x"), "é\n\"$"]?),
        1 => Value::from(tup!("é\n\"$", Value::from("x"))),
        2 => Value::from(obj!{"p" => Value::from("x"), "q" => "é\n\"$",}),
        3 => Value::from(obj!{"p" => Value::from("x"), "^" => obj!{"z" => Value::from("x")}}),
        4 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => Value::from("x")} } f()? }),
        5 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => Value::from("x")} } f()? }),
        6 => Value::from(arr![1, 2,]),
        7 => Value::from(try_arr![arr![1, 2,], 0u8]?),
        8 => Value::from(try_arr![0u8, arr![1, 2,], 0u8,]?),
        9 => Value::from(tup!(0u8, arr![1, 2,])),
        10 => Value::from(obj!{"p" => arr![1, 2,], "q" => 0u8}),
        11 => Value::from(try_arr![arr![1, 2,], 9223372036854775808usize,]?),
        12 => Value::from(try_arr![9223372036854775808usize, arr![1, 2,], 9223372036854775808usize]?),
        13 => Value::from(tup!(9223372036854775808usize, arr![1, 2,])),
        14 => Value::from(obj!{"p" => arr![1, 2,], "q" => 9223372036854775808usize,}),
        15 => Value::from(try_arr![arr![1, 2,], int!(7)]?),
        16 => Value::from(try_arr![int!(7), arr![1, 2,], int!(7)]?),
        17 => Value::from(tup!(int!(7), arr![1, 2,],)),
        18 => Value::from(obj!{"p" => arr![1, 2,], "q" => int!(7)}),
        _ => Value::from(try_arr![arr![1, 2,], frac!(1, 2)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b47(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![frac!(1, 2), arr![1, 2,], frac!(1, 2),]?),
        1 => Value::from(tup!(frac!(1, 2), arr![1, 2,])),
        2 => Value::from(obj!{"p" => arr![1, 2,], "q" => frac!(1, 2)}),
        3 => Value::from(try_arr![arr![1, 2,], "é\n\"$",]?),
        4 => Value::from(try_arr!["é\n\"$", arr![1, 2,], "é\n\"$"]?),
        5 => Value::from(tup!("é\n\"$", arr![1, 2,])),
        6 => Value::from(obj!{"p" => arr![1, 2,], "q" => "é\n\"$",}),
        7 => Value::from(obj!{"p" => arr![1, 2,], "^" => obj!{"z" => arr![1, 2,]}}),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![1, 2,]} } f()? }),
        9 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => arr![1, 2,]} } f()? }),
        10 => Value::from(arr![frac!(1, 2)]),
        11 => Value::from(try_arr![arr![frac!(1, 2)], 0u8]?),
        12 => Value::from(try_arr![0u8, arr![frac!(1, 2)], 0u8,]?),
        13 => Value::from(tup!(0u8, arr![frac!(1, 2)])),
        14 => Value::from(obj!{"p" => arr![frac!(1, 2)], "q" => 0u8}),
        15 => Value::from(try_arr![arr![frac!(1, 2)], 9223372036854775808usize,]?),
        16 => Value::from(try_arr![9223372036854775808usize, arr![frac!(1, 2)], 9223372036854775808usize]?),
        17 => Value::from(tup!(9223372036854775808usize, arr![frac!(1, 2)])),
        18 => Value::from(obj!{"p" => arr![frac!(1, 2)], "q" => 9223372036854775808usize,}),
        _ => Value::from(try_arr![arr![frac!(1, 2)], int!(7)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b48(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![int!(7), arr![frac!(1, 2)], int!(7)]?),
        1 => Value::from(tup!(int!(7), arr![frac!(1, 2)],)),
        2 => Value::from(obj!{"p" => arr![frac!(1, 2)], "q" => int!(7)}),
        3 => Value::from(try_arr![arr![frac!(1, 2)], frac!(1, 2)]?),
        4 => Value::from(try_arr![frac!(1, 2), arr![frac!(1, 2)], frac!(1, 2),]?),
        5 => Value::from(tup!(frac!(1, 2), arr![frac!(1, 2)])),
        6 => Value::from(obj!{"p" => arr![frac!(1, 2)], "q" => frac!(1, 2)}),
        7 => Value::from(try_arr![arr![frac!(1, 2)], "é\n\"$",]?),
        8 => Value::from(try_arr!["é\n\"$", arr![frac!(1, 2)], "é\n\"$"]?),
        9 => Value::from(tup!("é\n\"$", arr![frac!(1, 2)])),
        10 => Value::from(obj!{"p" => arr![frac!(1, 2)], "q" => "é\n\"$",}),
        11 => Value::from(obj!{"p" => arr![frac!(1, 2)], "^" => obj!{"z" => arr![frac!(1, 2)]}}),
        12 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![frac!(1, 2)]} } f()? }),
        13 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => arr![frac!(1, 2)]} } f()? }),
        14 => Value::from(tup!(1,)),
        15 => Value::from(try_arr![tup!(1,), 0u8]?),
        16 => Value::from(try_arr![0u8, tup!(1,), 0u8,]?),
        17 => Value::from(tup!(0u8, tup!(1,))),
        18 => Value::from(obj!{"p" => tup!(1,), "q" => 0u8}),
        _ => Value::from(try_arr![tup!(1,), 9223372036854775808usize,]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b49(i: usize) -> R {
    Ok(match i {
        0 => Value::from(try_arr![9223372036854775808usize, tup!(1,), 9223372036854775808usize]?),
        1 => Value::from(tup!(9223372036854775808usize, tup!(1,))),
        2 => Value::from(obj!{"p" => tup!(1,), "q" => 9223372036854775808usize,}),
        3 => Value::from(try_arr![tup!(1,), int!(7)]?),
        4 => Value::from(try_arr![int!(7), tup!(1,), int!(7)]?),
        5 => Value::from(tup!(int!(7), tup!(1,),)),
        6 => Value::from(obj!{"p" => tup!(1,), "q" => int!(7)}),
        7 => Value::from(try_arr![tup!(1,), frac!(1, 2)]?),
        8 => Value::from(try_arr![frac!(1, 2), tup!(1,), frac!(1, 2),]?),
        9 => Value::from(tup!(frac!(1, 2), tup!(1,))),
        10 => Value::from(obj!{"p" => tup!(1,), "q" => frac!(1, 2)}),
        11 => Value::from(try_arr![tup!(1,), "é\n\"$",]?),
        12 => Value::from(try_arr!["é\n\"$", tup!(1,), "é\n\"$"]?),
        13 => Value::from(tup!("é\n\"$", tup!(1,))),
        14 => Value::from(obj!{"p" => tup!(1,), "q" => "é\n\"$",}),
        15 => Value::from(obj!{"p" => tup!(1,), "^" => obj!{"z" => tup!(1,)}}),
        16 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => tup!(1,)} } f()? }),
        17 => Value::from(obj!{"a" => 1,}),
        18 => Value::from(try_arr![obj!{"a" => 1,}, 0u8]?),
        _ => Value::from(try_arr![0u8, obj!{"a" => 1,}, 0u8,]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b50(i: usize) -> R {
    Ok(match i {
        0 => Value::from(tup!(0u8, obj!{"a" => 1,})),
        1 => Value::from(obj!{"p" => obj!{"a" => 1,}, "q" => 0u8}),
        2 => Value::from(try_arr![obj!{"a" => 1,}, 9223372036854775808usize,]?),
        3 => Value::from(try_arr![9223372036854775808usize, obj!{"a" => 1,}, 9223372036854775808usize]?),
        4 => Value::from(tup!(9223372036854775808usize, obj!{"a" => 1,})),
        5 => Value::from(obj!{"p" => obj!{"a" => 1,}, "q" => 9223372036854775808usize,}),
        6 => Value::from(try_arr![obj!{"a" => 1,}, int!(7)]?),
        7 => Value::from(try_arr![int!(7), obj!{"a" => 1,}, int!(7)]?),
        8 => Value::from(tup!(int!(7), obj!{"a" => 1,},)),
        9 => Value::from(obj!{"p" => obj!{"a" => 1,}, "q" => int!(7)}),
        10 => Value::from(try_arr![obj!{"a" => 1,}, frac!(1, 2)]?),
        11 => Value::from(try_arr![frac!(1, 2), obj!{"a" => 1,}, frac!(1, 2),]?),
        12 => Value::from(tup!(frac!(1, 2), obj!{"a" => 1,})),
        13 => Value::from(obj!{"p" => obj!{"a" => 1,}, "q" => frac!(1, 2)}),
        14 => Value::from(try_arr![obj!{"a" => 1,}, "é\n\"$",]?),
        15 => Value::from(try_arr!["é\n\"$", obj!{"a" => 1,}, "é\n\"$"]?),
        16 => Value::from(tup!("é\n\"$", obj!{"a" => 1,})),
        17 => Value::from(obj!{"p" => obj!{"a" => 1,}, "q" => "é\n\"$",}),
        18 => Value::from(obj!{"p" => obj!{"a" => 1,}, "^" => obj!{"z" => obj!{"a" => 1,}}}),
        _ => Value::from(obj!{"^" => obj!{"a" => 1,}}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b51(i: usize) -> R {
    Ok(match i {
        0 => Value::from(obj!{"p" => 0u8, "^" => obj!{"a" => 1,},}),
        1 => Value::from(obj!{"^" => obj!{"a" => 1},}),
        2 => Value::from(try_arr![obj!{"^" => obj!{"a" => 1},}, 0u8]?),
        3 => Value::from(try_arr![0u8, obj!{"^" => obj!{"a" => 1},}, 0u8]?),
        4 => Value::from(tup!(0u8, obj!{"^" => obj!{"a" => 1},},)),
        5 => Value::from(obj!{"p" => obj!{"^" => obj!{"a" => 1},}, "q" => 0u8}),
        6 => Value::from(try_arr![obj!{"^" => obj!{"a" => 1},}, 9223372036854775808usize]?),
        7 => Value::from(try_arr![9223372036854775808usize, obj!{"^" => obj!{"a" => 1},}, 9223372036854775808usize,]?),
        8 => Value::from(tup!(9223372036854775808usize, obj!{"^" => obj!{"a" => 1},})),
        9 => Value::from(obj!{"p" => obj!{"^" => obj!{"a" => 1},}, "q" => 9223372036854775808usize}),
        10 => Value::from(try_arr![obj!{"^" => obj!{"a" => 1},}, int!(7),]?),
        11 => Value::from(try_arr![int!(7), obj!{"^" => obj!{"a" => 1},}, int!(7)]?),
        12 => Value::from(tup!(int!(7), obj!{"^" => obj!{"a" => 1},})),
        13 => Value::from(obj!{"p" => obj!{"^" => obj!{"a" => 1},}, "q" => int!(7),}),
        14 => Value::from(try_arr![obj!{"^" => obj!{"a" => 1},}, frac!(1, 2)]?),
        15 => Value::from(try_arr![frac!(1, 2), obj!{"^" => obj!{"a" => 1},}, frac!(1, 2)]?),
        16 => Value::from(tup!(frac!(1, 2), obj!{"^" => obj!{"a" => 1},},)),
        17 => Value::from(obj!{"p" => obj!{"^" => obj!{"a" => 1},}, "q" => frac!(1, 2)}),
        18 => Value::from(try_arr![obj!{"^" => obj!{"a" => 1},}, "é\n\"$"]?),
        _ => Value::from(try_arr!["é\n\"$", obj!{"^" => obj!{"a" => 1},}, "é\n\"$",]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b52(i: usize) -> R {
    Ok(match i {
        0 => Value::from(tup!("é\n\"$", obj!{"^" => obj!{"a" => 1},})),
        1 => Value::from(obj!{"p" => obj!{"^" => obj!{"a" => 1},}, "q" => "é\n\"$"}),
        2 => Value::from(obj!{"p" => obj!{"^" => obj!{"a" => 1},}, "^" => obj!{"z" => obj!{"^" => obj!{"a" => 1},}},}),
        3 => Value::from(obj!{"^" => obj!{"^" => obj!{"a" => 1},}}),
        4 => Value::from(obj!{"p" => 0u8, "^" => obj!{"^" => obj!{"a" => 1},}}),
        5 => Value::from(arr![arr![], arr![1]]),
        6 => Value::from(try_arr![arr![arr![], arr![1]], 0u8,]?),
        7 => Value::from(try_arr![0u8, arr![arr![], arr![1]], 0u8]?),
        8 => Value::from(tup!(0u8, arr![arr![], arr![1]])),
        9 => Value::from(obj!{"p" => arr![arr![], arr![1]], "q" => 0u8,}),
        10 => Value::from(try_arr![arr![arr![], arr![1]], 9223372036854775808usize]?),
        11 => Value::from(try_arr![9223372036854775808usize, arr![arr![], arr![1]], 9223372036854775808usize]?),
        12 => Value::from(tup!(9223372036854775808usize, arr![arr![], arr![1]],)),
        13 => Value::from(obj!{"p" => arr![arr![], arr![1]], "q" => 9223372036854775808usize}),
        14 => Value::from(try_arr![arr![arr![], arr![1]], int!(7)]?),
        15 => Value::from(try_arr![int!(7), arr![arr![], arr![1]], int!(7),]?),
        16 => Value::from(tup!(int!(7), arr![arr![], arr![1]])),
        17 => Value::from(obj!{"p" => arr![arr![], arr![1]], "q" => int!(7)}),
        18 => Value::from(try_arr![arr![arr![], arr![1]], frac!(1, 2),]?),
        _ => Value::from(try_arr![frac!(1, 2), arr![arr![], arr![1]], frac!(1, 2)]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b53(i: usize) -> R {
    Ok(match i {
        0 => Value::from(tup!(frac!(1, 2), arr![arr![], arr![1]])),
        1 => Value::from(obj!{"p" => arr![arr![], arr![1]], "q" => frac!(1, 2),}),
        2 => Value::from(try_arr![arr![arr![], arr![1]], "é\n\"$"]?),
        3 => Value::from(try_arr!["é\n\"$", arr![arr![], arr![1]], "é\n\"$"]?),
        4 => Value::from(tup!("é\n\"$", arr![arr![], arr![1]],)),
        5 => Value::from(obj!{"p" => arr![arr![], arr![1]], "q" => "é\n\"$"}),
        6 => Value::from(obj!{"p" => arr![arr![], arr![1]], "^" => obj!{"z" => arr![arr![], arr![1]]}}),
        7 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![arr![], arr![1]]} } f()? }),
        8 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => arr![arr![], arr![1]]} } f()? }),
        9 => Value::from(arr![arr![arr![]], arr![]]),
        10 => Value::from(try_arr![arr![arr![arr![]], arr![]], 0u8,]?),
        11 => Value::from(try_arr![0u8, arr![arr![arr![]], arr![]], 0u8]?),
        12 => Value::from(tup!(0u8, arr![arr![arr![]], arr![]])),
        13 => Value::from(obj!{"p" => arr![arr![arr![]], arr![]], "q" => 0u8,}),
        14 => Value::from(try_arr![arr![arr![arr![]], arr![]], 9223372036854775808usize]?),
        15 => Value::from(try_arr![9223372036854775808usize, arr![arr![arr![]], arr![]], 9223372036854775808usize]?),
        16 => Value::from(tup!(9223372036854775808usize, arr![arr![arr![]], arr![]],)),
        17 => Value::from(obj!{"p" => arr![arr![arr![]], arr![]], "q" => 9223372036854775808usize}),
        18 => Value::from(try_arr![arr![arr![arr![]], arr![]], int!(7)]?),
        _ => Value::from(try_arr![int!(7), arr![arr![arr![]], arr![]], int!(7),]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b54(i: usize) -> R {
    Ok(match i {
        0 => Value::from(tup!(int!(7), arr![arr![arr![]], arr![]])),
        1 => Value::from(obj!{"p" => arr![arr![arr![]], arr![]], "q" => int!(7)}),
        2 => Value::from(try_arr![arr![arr![arr![]], arr![]], frac!(1, 2),]?),
        3 => Value::from(try_arr![frac!(1, 2), arr![arr![arr![]], arr![]], frac!(1, 2)]?),
        4 => Value::from(tup!(frac!(1, 2), arr![arr![arr![]], arr![]])),
        5 => Value::from(obj!{"p" => arr![arr![arr![]], arr![]], "q" => frac!(1, 2),}),
        6 => Value::from(try_arr![arr![arr![arr![]], arr![]], "é\n\"$"]?),
        7 => Value::from(try_arr!["é\n\"$", arr![arr![arr![]], arr![]], "é\n\"$"]?),
        8 => Value::from(tup!("é\n\"$", arr![arr![arr![]], arr![]],)),
        9 => Value::from(obj!{"p" => arr![arr![arr![]], arr![]], "q" => "é\n\"$"}),
        10 => Value::from(obj!{"p" => arr![arr![arr![]], arr![]], "^" => obj!{"z" => arr![arr![arr![]], arr![]]}}),
        11 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![arr![arr![]], arr![]]} } f()? }),
        12 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => arr![arr![arr![]], arr![]]} } f()? }),
        13 => Value::from(arr![obj!{}, obj!{"a" => 1}]),
        14 => Value::from(try_arr![arr![obj!{}, obj!{"a" => 1}], 0u8,]?),
        15 => Value::from(try_arr![0u8, arr![obj!{}, obj!{"a" => 1}], 0u8]?),
        16 => Value::from(tup!(0u8, arr![obj!{}, obj!{"a" => 1}])),
        17 => Value::from(obj!{"p" => arr![obj!{}, obj!{"a" => 1}], "q" => 0u8,}),
        18 => Value::from(try_arr![arr![obj!{}, obj!{"a" => 1}], 9223372036854775808usize]?),
        _ => Value::from(try_arr![9223372036854775808usize, arr![obj!{}, obj!{"a" => 1}], 9223372036854775808usize]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b55(i: usize) -> R {
    Ok(match i {
        0 => Value::from(tup!(9223372036854775808usize, arr![obj!{}, obj!{"a" => 1}],)),
        1 => Value::from(obj!{"p" => arr![obj!{}, obj!{"a" => 1}], "q" => 9223372036854775808usize}),
        2 => Value::from(try_arr![arr![obj!{}, obj!{"a" => 1}], int!(7)]?),
        3 => Value::from(try_arr![int!(7), arr![obj!{}, obj!{"a" => 1}], int!(7),]?),
        4 => Value::from(tup!(int!(7), arr![obj!{}, obj!{"a" => 1}])),
        5 => Value::from(obj!{"p" => arr![obj!{}, obj!{"a" => 1}], "q" => int!(7)}),
        6 => Value::from(try_arr![arr![obj!{}, obj!{"a" => 1}], frac!(1, 2),]?),
        7 => Value::from(try_arr![frac!(1, 2), arr![obj!{}, obj!{"a" => 1}], frac!(1, 2)]?),
        8 => Value::from(tup!(frac!(1, 2), arr![obj!{}, obj!{"a" => 1}])),
        9 => Value::from(obj!{"p" => arr![obj!{}, obj!{"a" => 1}], "q" => frac!(1, 2),}),
        10 => Value::from(try_arr![arr![obj!{}, obj!{"a" => 1}], "é\n\"$"]?),
        11 => Value::from(try_arr!["é\n\"$", arr![obj!{}, obj!{"a" => 1}], "é\n\"$"]?),
        12 => Value::from(tup!("é\n\"$", arr![obj!{}, obj!{"a" => 1}],)),
        13 => Value::from(obj!{"p" => arr![obj!{}, obj!{"a" => 1}], "q" => "é\n\"$"}),
        14 => Value::from(obj!{"p" => arr![obj!{}, obj!{"a" => 1}], "^" => obj!{"z" => arr![obj!{}, obj!{"a" => 1}]}}),
        15 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![obj!{}, obj!{"a" => 1}]} } f()? }),
        16 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => arr![obj!{}, obj!{"a" => 1}]} } f()? }),
        17 => Value::from(arr![tup!(arr![]), tup!(arr![1])]),
        18 => Value::from(try_arr![arr![tup!(arr![]), tup!(arr![1])], 0u8,]?),
        _ => Value::from(try_arr![0u8, arr![tup!(arr![]), tup!(arr![1])], 0u8]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b56(i: usize) -> R {
    Ok(match i {
        0 => Value::from(tup!(0u8, arr![tup!(arr![]), tup!(arr![1])])),
        1 => Value::from(obj!{"p" => arr![tup!(arr![]), tup!(arr![1])], "q" => 0u8,}),
        2 => Value::from(try_arr![arr![tup!(arr![]), tup!(arr![1])], 9223372036854775808usize]?),
        3 => Value::from(try_arr![9223372036854775808usize, arr![tup!(arr![]), tup!(arr![1])], 9223372036854775808usize]?),
        4 => Value::from(tup!(9223372036854775808usize, arr![tup!(arr![]), tup!(arr![1])],)),
        5 => Value::from(obj!{"p" => arr![tup!(arr![]), tup!(arr![1])], "q" => 9223372036854775808usize}),
        6 => Value::from(try_arr![arr![tup!(arr![]), tup!(arr![1])], int!(7)]?),
        7 => Value::from(try_arr![int!(7), arr![tup!(arr![]), tup!(arr![1])], int!(7),]?),
        8 => Value::from(tup!(int!(7), arr![tup!(arr![]), tup!(arr![1])])),
        9 => Value::from(obj!{"p" => arr![tup!(arr![]), tup!(arr![1])], "q" => int!(7)}),
        10 => Value::from(try_arr![arr![tup!(arr![]), tup!(arr![1])], frac!(1, 2),]?),
        11 => Value::from(try_arr![frac!(1, 2), arr![tup!(arr![]), tup!(arr![1])], frac!(1, 2)]?),
        12 => Value::from(tup!(frac!(1, 2), arr![tup!(arr![]), tup!(arr![1])])),
        13 => Value::from(obj!{"p" => arr![tup!(arr![]), tup!(arr![1])], "q" => frac!(1, 2),}),
        14 => Value::from(try_arr![arr![tup!(arr![]), tup!(arr![1])], "é\n\"$"]?),
        15 => Value::from(try_arr!["é\n\"$", arr![tup!(arr![]), tup!(arr![1])], "é\n\"$"]?),
        16 => Value::from(tup!("é\n\"$", arr![tup!(arr![]), tup!(arr![1])],)),
        17 => Value::from(obj!{"p" => arr![tup!(arr![]), tup!(arr![1])], "q" => "é\n\"$"}),
        18 => Value::from(obj!{"p" => arr![tup!(arr![]), tup!(arr![1])], "^" => obj!{"z" => arr![tup!(arr![]), tup!(arr![1])]}}),
        _ => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"^" => arr![tup!(arr![]), tup!(arr![1])]} } f()? }),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b57(i: usize) -> R {
    Ok(match i {
        0 => Value::from({ fn f() -> Result<over::Obj, OverError> { try_obj!{"p" => 0u8, "^" => arr![tup!(arr![]), tup!(arr![1])]} } f()? }),
        1 => Value::from(try_arr![0,]?),
        2 => Value::from(tup!(0)),
        3 => Value::from(try_arr![0, 1]?),
        4 => Value::from(tup!(0, 1,)),
        5 => Value::from(try_arr![0, 1, 2]?),
        6 => Value::from(tup!(0, 1, 2)),
        7 => Value::from(try_arr![0, 1, 2, 3,]?),
        8 => Value::from(tup!(0, 1, 2, 3)),
        9 => Value::from(try_arr![0, 1, 2, 3, 4]?),
        10 => Value::from(tup!(0, 1, 2, 3, 4,)),
        11 => Value::from(try_arr![0, 1, 2, 3, 4, 5]?),
        12 => Value::from(tup!(0, 1, 2, 3, 4, 5)),
        13 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6,]?),
        14 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6)),
        15 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7]?),
        16 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7,)),
        17 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8]?),
        18 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8)),
        _ => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9,]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b58(i: usize) -> R {
    Ok(match i {
        0 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9)),
        1 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]?),
        2 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10,)),
        3 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]?),
        4 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)),
        5 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12,]?),
        6 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)),
        7 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]?),
        8 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13,)),
        9 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]?),
        10 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14)),
        11 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,]?),
        12 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)),
        13 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]?),
        14 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16,)),
        15 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]?),
        16 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17)),
        17 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,]?),
        18 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18)),
        _ => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b59(i: usize) -> R {
    Ok(match i {
        0 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,)),
        1 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]?),
        2 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20)),
        3 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21,]?),
        4 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21)),
        5 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]?),
        6 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22,)),
        7 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]?),
        8 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23)),
        9 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24,]?),
        10 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24)),
        11 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]?),
        12 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25,)),
        13 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]?),
        14 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26)),
        15 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27,]?),
        16 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27)),
        17 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]?),
        18 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28,)),
        _ => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b60(i: usize) -> R {
    Ok(match i {
        0 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29)),
        1 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30,]?),
        2 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30)),
        3 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]?),
        4 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,)),
        5 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32]?),
        6 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32)),
        7 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33,]?),
        8 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33)),
        9 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34]?),
        10 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34,)),
        11 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35]?),
        12 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35)),
        13 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36,]?),
        14 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36)),
        15 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37]?),
        16 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37,)),
        17 => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38]?),
        18 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38)),
        _ => Value::from(try_arr![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,]?),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b61(i: usize) -> R {
    Ok(match i {
        0 => Value::from(tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39)),
        1 => Value::from(obj!{"^" => obj!{"p" => 9, "z" => 8}, "p" => 0}),
        2 => Value::from(obj!{"p" => 0, "^" => obj!{"p" => 9, "z" => 8},}),
        3 => Value::from(obj!{"p" => 0}),
        4 => Value::from(obj!{"^" => obj!{"p" => 9, "z" => 8}, "p" => 0, "q" => 1}),
        5 => Value::from(obj!{"p" => 0, "^" => obj!{"p" => 9, "z" => 8}, "q" => 1,}),
        6 => Value::from(obj!{"p" => 0, "q" => 1, "^" => obj!{"p" => 9, "z" => 8}}),
        7 => Value::from(obj!{"p" => 0, "q" => 1}),
        8 => Value::from(obj!{"^" => obj!{"p" => 9, "z" => 8}, "p" => 0, "q" => 1, "r" => 2,}),
        9 => Value::from(obj!{"p" => 0, "^" => obj!{"p" => 9, "z" => 8}, "q" => 1, "r" => 2}),
        10 => Value::from(obj!{"p" => 0, "q" => 1, "^" => obj!{"p" => 9, "z" => 8}, "r" => 2}),
        11 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "^" => obj!{"p" => 9, "z" => 8},}),
        12 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2}),
        13 => Value::from(obj!{"^" => obj!{"p" => 9, "z" => 8}, "p" => 0, "q" => 1, "r" => 2, "s" => 3}),
        14 => Value::from(obj!{"p" => 0, "^" => obj!{"p" => 9, "z" => 8}, "q" => 1, "r" => 2, "s" => 3,}),
        15 => Value::from(obj!{"p" => 0, "q" => 1, "^" => obj!{"p" => 9, "z" => 8}, "r" => 2, "s" => 3}),
        16 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "^" => obj!{"p" => 9, "z" => 8}, "s" => 3}),
        17 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "^" => obj!{"p" => 9, "z" => 8},}),
        18 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3}),
        _ => Value::from(obj!{"^" => obj!{"p" => 9, "z" => 8}, "p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b62(i: usize) -> R {
    Ok(match i {
        0 => Value::from(obj!{"p" => 0, "^" => obj!{"p" => 9, "z" => 8}, "q" => 1, "r" => 2, "s" => 3, "t" => 4,}),
        1 => Value::from(obj!{"p" => 0, "q" => 1, "^" => obj!{"p" => 9, "z" => 8}, "r" => 2, "s" => 3, "t" => 4}),
        2 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "^" => obj!{"p" => 9, "z" => 8}, "s" => 3, "t" => 4}),
        3 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "^" => obj!{"p" => 9, "z" => 8}, "t" => 4,}),
        4 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "^" => obj!{"p" => 9, "z" => 8}}),
        5 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4}),
        6 => Value::from(obj!{"^" => obj!{"p" => 9, "z" => 8}, "p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5,}),
        7 => Value::from(obj!{"p" => 0, "^" => obj!{"p" => 9, "z" => 8}, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5}),
        8 => Value::from(obj!{"p" => 0, "q" => 1, "^" => obj!{"p" => 9, "z" => 8}, "r" => 2, "s" => 3, "t" => 4, "u" => 5}),
        9 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "^" => obj!{"p" => 9, "z" => 8}, "s" => 3, "t" => 4, "u" => 5,}),
        10 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "^" => obj!{"p" => 9, "z" => 8}, "t" => 4, "u" => 5}),
        11 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "^" => obj!{"p" => 9, "z" => 8}, "u" => 5}),
        12 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "^" => obj!{"p" => 9, "z" => 8},}),
        13 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5}),
        14 => Value::from(obj!{"^" => obj!{"p" => 9, "z" => 8}, "p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "v" => 6}),
        15 => Value::from(obj!{"p" => 0, "^" => obj!{"p" => 9, "z" => 8}, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "v" => 6,}),
        16 => Value::from(obj!{"p" => 0, "q" => 1, "^" => obj!{"p" => 9, "z" => 8}, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "v" => 6}),
        17 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "^" => obj!{"p" => 9, "z" => 8}, "s" => 3, "t" => 4, "u" => 5, "v" => 6}),
        18 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "^" => obj!{"p" => 9, "z" => 8}, "t" => 4, "u" => 5, "v" => 6,}),
        _ => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "^" => obj!{"p" => 9, "z" => 8}, "u" => 5, "v" => 6}),
    })
}
#[allow(clippy::all)]
#[inline(never)]
fn b63(i: usize) -> R {
    Ok(match i {
        0 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "^" => obj!{"p" => 9, "z" => 8}, "v" => 6}),
        1 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "v" => 6, "^" => obj!{"p" => 9, "z" => 8},}),
        2 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "v" => 6}),
        3 => Value::from(obj!{"^" => obj!{"p" => 9, "z" => 8}, "p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "v" => 6, "w" => 7}),
        4 => Value::from(obj!{"p" => 0, "^" => obj!{"p" => 9, "z" => 8}, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "v" => 6, "w" => 7,}),
        5 => Value::from(obj!{"p" => 0, "q" => 1, "^" => obj!{"p" => 9, "z" => 8}, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "v" => 6, "w" => 7}),
        6 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "^" => obj!{"p" => 9, "z" => 8}, "s" => 3, "t" => 4, "u" => 5, "v" => 6, "w" => 7}),
        7 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "^" => obj!{"p" => 9, "z" => 8}, "t" => 4, "u" => 5, "v" => 6, "w" => 7,}),
        8 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "^" => obj!{"p" => 9, "z" => 8}, "u" => 5, "v" => 6, "w" => 7}),
        9 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "^" => obj!{"p" => 9, "z" => 8}, "v" => 6, "w" => 7}),
        10 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "v" => 6, "^" => obj!{"p" => 9, "z" => 8}, "w" => 7,}),
        11 => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "v" => 6, "w" => 7, "^" => obj!{"p" => 9, "z" => 8}}),
        _ => Value::from(obj!{"p" => 0, "q" => 1, "r" => 2, "s" => 3, "t" => 4, "u" => 5, "v" => 6, "w" => 7}),
    })
}
const FNS: &[fn(usize) -> R] = &[b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19, b20, b21, b22, b23, b24, b25, b26, b27, b28, b29, b30, b31, b32, b33, b34, b35, b36, b37, b38, b39, b40, b41, b42, b43, b44, b45, b46, b47, b48, b49, b50, b51, b52, b53, b54, b55, b56, b57, b58, b59, b60, b61, b62, b63];
pub fn value(i: usize) -> R {
    FNS[i / 20](i % 20)
}
pub const TEXTS: &[&str] = &[
    r##"1"##,
    r##""s""##,
    r##"[]"##,
    r##"()"##,
    r##"{}"##,
    r##"[1]"##,
    r##"(1)"##,
    r##"{p:1}"##,
    r##"{^:1}"##,
    r##"["s"]"##,
    r##"("s")"##,
    r##"{p:"s"}"##,
    r##"{^:"s"}"##,
    r##"[[]]"##,
    r##"([])"##,
    r##"{p:[]}"##,
    r##"{^:[]}"##,
    r##"[()]"##,
    r##"(())"##,
    r##"{p:()}"##,
    r##"{^:()}"##,
    r##"[{}]"##,
    r##"({})"##,
    r##"{p:{}}"##,
    r##"{^:{}}"##,
    r##"[[1]]"##,
    r##"([1])"##,
    r##"{p:[1]}"##,
    r##"{^:[1]}"##,
    r##"[(1)]"##,
    r##"((1))"##,
    r##"{p:(1)}"##,
    r##"{^:(1)}"##,
    r##"[{p:1}]"##,
    r##"({p:1})"##,
    r##"{p:{p:1}}"##,
    r##"{^:{p:1}}"##,
    r##"[{^:1}]"##,
    r##"({^:1})"##,
    r##"{p:{^:1}}"##,
    r##"{^:{^:1}}"##,
    r##"[["s"]]"##,
    r##"(["s"])"##,
    r##"{p:["s"]}"##,
    r##"{^:["s"]}"##,
    r##"[("s")]"##,
    r##"(("s"))"##,
    r##"{p:("s")}"##,
    r##"{^:("s")}"##,
    r##"[{p:"s"}]"##,
    r##"({p:"s"})"##,
    r##"{p:{p:"s"}}"##,
    r##"{^:{p:"s"}}"##,
    r##"[{^:"s"}]"##,
    r##"({^:"s"})"##,
    r##"{p:{^:"s"}}"##,
    r##"{^:{^:"s"}}"##,
    r##"[[[]]]"##,
    r##"([[]])"##,
    r##"{p:[[]]}"##,
    r##"{^:[[]]}"##,
    r##"[([])]"##,
    r##"(([]))"##,
    r##"{p:([])}"##,
    r##"{^:([])}"##,
    r##"[{p:[]}]"##,
    r##"({p:[]})"##,
    r##"{p:{p:[]}}"##,
    r##"{^:{p:[]}}"##,
    r##"[{^:[]}]"##,
    r##"({^:[]})"##,
    r##"{p:{^:[]}}"##,
    r##"{^:{^:[]}}"##,
    r##"[[()]]"##,
    r##"([()])"##,
    r##"{p:[()]}"##,
    r##"{^:[()]}"##,
    r##"[(())]"##,
    r##"((()))"##,
    r##"{p:(())}"##,
    r##"{^:(())}"##,
    r##"[{p:()}]"##,
    r##"({p:()})"##,
    r##"{p:{p:()}}"##,
    r##"{^:{p:()}}"##,
    r##"[{^:()}]"##,
    r##"({^:()})"##,
    r##"{p:{^:()}}"##,
    r##"{^:{^:()}}"##,
    r##"[[{}]]"##,
    r##"([{}])"##,
    r##"{p:[{}]}"##,
    r##"{^:[{}]}"##,
    r##"[({})]"##,
    r##"(({}))"##,
    r##"{p:({})}"##,
    r##"{^:({})}"##,
    r##"[{p:{}}]"##,
    r##"({p:{}})"##,
    r##"{p:{p:{}}}"##,
    r##"{^:{p:{}}}"##,
    r##"[{^:{}}]"##,
    r##"({^:{}})"##,
    r##"{p:{^:{}}}"##,
    r##"{^:{^:{}}}"##,
    r##"[1 1]"##,
    r##"(1 1)"##,
    r##"{p:1 q:1}"##,
    r##"{^:1 p:1}"##,
    r##"{p:1 ^:1}"##,
    r##"["s" 1]"##,
    r##"("s" 1)"##,
    r##"{p:"s" q:1}"##,
    r##"{^:"s" p:1}"##,
    r##"{p:"s" ^:1}"##,
    r##"[[] 1]"##,
    r##"([] 1)"##,
    r##"{p:[] q:1}"##,
    r##"{^:[] p:1}"##,
    r##"{p:[] ^:1}"##,
    r##"[() 1]"##,
    r##"(() 1)"##,
    r##"{p:() q:1}"##,
    r##"{^:() p:1}"##,
    r##"{p:() ^:1}"##,
    r##"[{} 1]"##,
    r##"({} 1)"##,
    r##"{p:{} q:1}"##,
    r##"{^:{} p:1}"##,
    r##"{p:{} ^:1}"##,
    r##"[1 "s"]"##,
    r##"(1 "s")"##,
    r##"{p:1 q:"s"}"##,
    r##"{^:1 p:"s"}"##,
    r##"{p:1 ^:"s"}"##,
    r##"["s" "s"]"##,
    r##"("s" "s")"##,
    r##"{p:"s" q:"s"}"##,
    r##"{^:"s" p:"s"}"##,
    r##"{p:"s" ^:"s"}"##,
    r##"[[] "s"]"##,
    r##"([] "s")"##,
    r##"{p:[] q:"s"}"##,
    r##"{^:[] p:"s"}"##,
    r##"{p:[] ^:"s"}"##,
    r##"[() "s"]"##,
    r##"(() "s")"##,
    r##"{p:() q:"s"}"##,
    r##"{^:() p:"s"}"##,
    r##"{p:() ^:"s"}"##,
    r##"[{} "s"]"##,
    r##"({} "s")"##,
    r##"{p:{} q:"s"}"##,
    r##"{^:{} p:"s"}"##,
    r##"{p:{} ^:"s"}"##,
    r##"[1 []]"##,
    r##"(1 [])"##,
    r##"{p:1 q:[]}"##,
    r##"{^:1 p:[]}"##,
    r##"{p:1 ^:[]}"##,
    r##"["s" []]"##,
    r##"("s" [])"##,
    r##"{p:"s" q:[]}"##,
    r##"{^:"s" p:[]}"##,
    r##"{p:"s" ^:[]}"##,
    r##"[[] []]"##,
    r##"([] [])"##,
    r##"{p:[] q:[]}"##,
    r##"{^:[] p:[]}"##,
    r##"{p:[] ^:[]}"##,
    r##"[() []]"##,
    r##"(() [])"##,
    r##"{p:() q:[]}"##,
    r##"{^:() p:[]}"##,
    r##"{p:() ^:[]}"##,
    r##"[{} []]"##,
    r##"({} [])"##,
    r##"{p:{} q:[]}"##,
    r##"{^:{} p:[]}"##,
    r##"{p:{} ^:[]}"##,
    r##"[1 ()]"##,
    r##"(1 ())"##,
    r##"{p:1 q:()}"##,
    r##"{^:1 p:()}"##,
    r##"{p:1 ^:()}"##,
    r##"["s" ()]"##,
    r##"("s" ())"##,
    r##"{p:"s" q:()}"##,
    r##"{^:"s" p:()}"##,
    r##"{p:"s" ^:()}"##,
    r##"[[] ()]"##,
    r##"([] ())"##,
    r##"{p:[] q:()}"##,
    r##"{^:[] p:()}"##,
    r##"{p:[] ^:()}"##,
    r##"[() ()]"##,
    r##"(() ())"##,
    r##"{p:() q:()}"##,
    r##"{^:() p:()}"##,
    r##"{p:() ^:()}"##,
    r##"[{} ()]"##,
    r##"({} ())"##,
    r##"{p:{} q:()}"##,
    r##"{^:{} p:()}"##,
    r##"{p:{} ^:()}"##,
    r##"[1 {}]"##,
    r##"(1 {})"##,
    r##"{p:1 q:{}}"##,
    r##"{^:1 p:{}}"##,
    r##"{p:1 ^:{}}"##,
    r##"["s" {}]"##,
    r##"("s" {})"##,
    r##"{p:"s" q:{}}"##,
    r##"{^:"s" p:{}}"##,
    r##"{p:"s" ^:{}}"##,
    r##"[[] {}]"##,
    r##"([] {})"##,
    r##"{p:[] q:{}}"##,
    r##"{^:[] p:{}}"##,
    r##"{p:[] ^:{}}"##,
    r##"[() {}]"##,
    r##"(() {})"##,
    r##"{p:() q:{}}"##,
    r##"{^:() p:{}}"##,
    r##"{p:() ^:{}}"##,
    r##"[{} {}]"##,
    r##"({} {})"##,
    r##"{p:{} q:{}}"##,
    r##"{^:{} p:{}}"##,
    r##"{p:{} ^:{}}"##,
    r##"0"##,
    r##"[0 0]"##,
    r##"[0 0 0]"##,
    r##"(0 0)"##,
    r##"{p:0 q:0}"##,
    r##"[0 9223372036854775808]"##,
    r##"[9223372036854775808 0 9223372036854775808]"##,
    r##"(9223372036854775808 0)"##,
    r##"{p:0 q:9223372036854775808}"##,
    r##"[0 7]"##,
    r##"[7 0 7]"##,
    r##"(7 0)"##,
    r##"{p:0 q:7}"##,
    r##"[0 1/2]"##,
    r##"[1/2 0 1/2]"##,
    r##"(1/2 0)"##,
    r##"{p:0 q:1/2}"##,
    r##"[0 "é\n\"\$"]"##,
    r##"["é\n\"\$" 0 "é\n\"\$"]"##,
    r##"("é\n\"\$" 0)"##,
    r##"{p:0 q:"é\n\"\$"}"##,
    r##"{p:0 ^:{z:0}}"##,
    r##"{^:0}"##,
    r##"{p:0 ^:0}"##,
    r##"255"##,
    r##"[255 0]"##,
    r##"[0 255 0]"##,
    r##"(0 255)"##,
    r##"{p:255 q:0}"##,
    r##"[255 9223372036854775808]"##,
    r##"[9223372036854775808 255 9223372036854775808]"##,
    r##"(9223372036854775808 255)"##,
    r##"{p:255 q:9223372036854775808}"##,
    r##"[255 7]"##,
    r##"[7 255 7]"##,
    r##"(7 255)"##,
    r##"{p:255 q:7}"##,
    r##"[255 1/2]"##,
    r##"[1/2 255 1/2]"##,
    r##"(1/2 255)"##,
    r##"{p:255 q:1/2}"##,
    r##"[255 "é\n\"\$"]"##,
    r##"["é\n\"\$" 255 "é\n\"\$"]"##,
    r##"("é\n\"\$" 255)"##,
    r##"{p:255 q:"é\n\"\$"}"##,
    r##"{p:255 ^:{z:255}}"##,
    r##"{^:255}"##,
    r##"{p:0 ^:255}"##,
    r##"65535"##,
    r##"[65535 0]"##,
    r##"[0 65535 0]"##,
    r##"(0 65535)"##,
    r##"{p:65535 q:0}"##,
    r##"[65535 9223372036854775808]"##,
    r##"[9223372036854775808 65535 9223372036854775808]"##,
    r##"(9223372036854775808 65535)"##,
    r##"{p:65535 q:9223372036854775808}"##,
    r##"[65535 7]"##,
    r##"[7 65535 7]"##,
    r##"(7 65535)"##,
    r##"{p:65535 q:7}"##,
    r##"[65535 1/2]"##,
    r##"[1/2 65535 1/2]"##,
    r##"(1/2 65535)"##,
    r##"{p:65535 q:1/2}"##,
    r##"[65535 "é\n\"\$"]"##,
    r##"["é\n\"\$" 65535 "é\n\"\$"]"##,
    r##"("é\n\"\$" 65535)"##,
    r##"{p:65535 q:"é\n\"\$"}"##,
    r##"{p:65535 ^:{z:65535}}"##,
    r##"{^:65535}"##,
    r##"{p:0 ^:65535}"##,
    r##"4294967295"##,
    r##"[4294967295 0]"##,
    r##"[0 4294967295 0]"##,
    r##"(0 4294967295)"##,
    r##"{p:4294967295 q:0}"##,
    r##"[4294967295 9223372036854775808]"##,
    r##"[9223372036854775808 4294967295 9223372036854775808]"##,
    r##"(9223372036854775808 4294967295)"##,
    r##"{p:4294967295 q:9223372036854775808}"##,
    r##"[4294967295 7]"##,
    r##"[7 4294967295 7]"##,
    r##"(7 4294967295)"##,
    r##"{p:4294967295 q:7}"##,
    r##"[4294967295 1/2]"##,
    r##"[1/2 4294967295 1/2]"##,
    r##"(1/2 4294967295)"##,
    r##"{p:4294967295 q:1/2}"##,
    r##"[4294967295 "é\n\"\$"]"##,
    r##"["é\n\"\$" 4294967295 "é\n\"\$"]"##,
    r##"("é\n\"\$" 4294967295)"##,
    r##"{p:4294967295 q:"é\n\"\$"}"##,
    r##"{p:4294967295 ^:{z:4294967295}}"##,
    r##"{^:4294967295}"##,
    r##"{p:0 ^:4294967295}"##,
    r##"18446744073709551615"##,
    r##"[18446744073709551615 0]"##,
    r##"[0 18446744073709551615 0]"##,
    r##"(0 18446744073709551615)"##,
    r##"{p:18446744073709551615 q:0}"##,
    r##"[18446744073709551615 9223372036854775808]"##,
    r##"[9223372036854775808 18446744073709551615 9223372036854775808]"##,
    r##"(9223372036854775808 18446744073709551615)"##,
    r##"{p:18446744073709551615 q:9223372036854775808}"##,
    r##"[18446744073709551615 7]"##,
    r##"[7 18446744073709551615 7]"##,
    r##"(7 18446744073709551615)"##,
    r##"{p:18446744073709551615 q:7}"##,
    r##"[18446744073709551615 1/2]"##,
    r##"[1/2 18446744073709551615 1/2]"##,
    r##"(1/2 18446744073709551615)"##,
    r##"{p:18446744073709551615 q:1/2}"##,
    r##"[18446744073709551615 "é\n\"\$"]"##,
    r##"["é\n\"\$" 18446744073709551615 "é\n\"\$"]"##,
    r##"("é\n\"\$" 18446744073709551615)"##,
    r##"{p:18446744073709551615 q:"é\n\"\$"}"##,
    r##"{p:18446744073709551615 ^:{z:18446744073709551615}}"##,
    r##"{^:18446744073709551615}"##,
    r##"{p:0 ^:18446744073709551615}"##,
    r##"9223372036854775808"##,
    r##"[9223372036854775808 0]"##,
    r##"[0 9223372036854775808 0]"##,
    r##"(0 9223372036854775808)"##,
    r##"{p:9223372036854775808 q:0}"##,
    r##"[9223372036854775808 9223372036854775808]"##,
    r##"[9223372036854775808 9223372036854775808 9223372036854775808]"##,
    r##"(9223372036854775808 9223372036854775808)"##,
    r##"{p:9223372036854775808 q:9223372036854775808}"##,
    r##"[9223372036854775808 7]"##,
    r##"[7 9223372036854775808 7]"##,
    r##"(7 9223372036854775808)"##,
    r##"{p:9223372036854775808 q:7}"##,
    r##"[9223372036854775808 1/2]"##,
    r##"[1/2 9223372036854775808 1/2]"##,
    r##"(1/2 9223372036854775808)"##,
    r##"{p:9223372036854775808 q:1/2}"##,
    r##"[9223372036854775808 "é\n\"\$"]"##,
    r##"["é\n\"\$" 9223372036854775808 "é\n\"\$"]"##,
    r##"("é\n\"\$" 9223372036854775808)"##,
    r##"{p:9223372036854775808 q:"é\n\"\$"}"##,
    r##"{p:9223372036854775808 ^:{z:9223372036854775808}}"##,
    r##"{^:9223372036854775808}"##,
    r##"{p:0 ^:9223372036854775808}"##,
    r##"-128"##,
    r##"[-128 0]"##,
    r##"[0 -128 0]"##,
    r##"(0 -128)"##,
    r##"{p:-128 q:0}"##,
    r##"[-128 9223372036854775808]"##,
    r##"[9223372036854775808 -128 9223372036854775808]"##,
    r##"(9223372036854775808 -128)"##,
    r##"{p:-128 q:9223372036854775808}"##,
    r##"[-128 7]"##,
    r##"[7 -128 7]"##,
    r##"(7 -128)"##,
    r##"{p:-128 q:7}"##,
    r##"[-128 1/2]"##,
    r##"[1/2 -128 1/2]"##,
    r##"(1/2 -128)"##,
    r##"{p:-128 q:1/2}"##,
    r##"[-128 "é\n\"\$"]"##,
    r##"["é\n\"\$" -128 "é\n\"\$"]"##,
    r##"("é\n\"\$" -128)"##,
    r##"{p:-128 q:"é\n\"\$"}"##,
    r##"{p:-128 ^:{z:-128}}"##,
    r##"{^:-128}"##,
    r##"{p:0 ^:-128}"##,
    r##"-32768"##,
    r##"[-32768 0]"##,
    r##"[0 -32768 0]"##,
    r##"(0 -32768)"##,
    r##"{p:-32768 q:0}"##,
    r##"[-32768 9223372036854775808]"##,
    r##"[9223372036854775808 -32768 9223372036854775808]"##,
    r##"(9223372036854775808 -32768)"##,
    r##"{p:-32768 q:9223372036854775808}"##,
    r##"[-32768 7]"##,
    r##"[7 -32768 7]"##,
    r##"(7 -32768)"##,
    r##"{p:-32768 q:7}"##,
    r##"[-32768 1/2]"##,
    r##"[1/2 -32768 1/2]"##,
    r##"(1/2 -32768)"##,
    r##"{p:-32768 q:1/2}"##,
    r##"[-32768 "é\n\"\$"]"##,
    r##"["é\n\"\$" -32768 "é\n\"\$"]"##,
    r##"("é\n\"\$" -32768)"##,
    r##"{p:-32768 q:"é\n\"\$"}"##,
    r##"{p:-32768 ^:{z:-32768}}"##,
    r##"{^:-32768}"##,
    r##"{p:0 ^:-32768}"##,
    r##"-2147483648"##,
    r##"[-2147483648 0]"##,
    r##"[0 -2147483648 0]"##,
    r##"(0 -2147483648)"##,
    r##"{p:-2147483648 q:0}"##,
    r##"[-2147483648 9223372036854775808]"##,
    r##"[9223372036854775808 -2147483648 9223372036854775808]"##,
    r##"(9223372036854775808 -2147483648)"##,
    r##"{p:-2147483648 q:9223372036854775808}"##,
    r##"[-2147483648 7]"##,
    r##"[7 -2147483648 7]"##,
    r##"(7 -2147483648)"##,
    r##"{p:-2147483648 q:7}"##,
    r##"[-2147483648 1/2]"##,
    r##"[1/2 -2147483648 1/2]"##,
    r##"(1/2 -2147483648)"##,
    r##"{p:-2147483648 q:1/2}"##,
    r##"[-2147483648 "é\n\"\$"]"##,
    r##"["é\n\"\$" -2147483648 "é\n\"\$"]"##,
    r##"("é\n\"\$" -2147483648)"##,
    r##"{p:-2147483648 q:"é\n\"\$"}"##,
    r##"{p:-2147483648 ^:{z:-2147483648}}"##,
    r##"{^:-2147483648}"##,
    r##"{p:0 ^:-2147483648}"##,
    r##"-9223372036854775808"##,
    r##"[-9223372036854775808 0]"##,
    r##"[0 -9223372036854775808 0]"##,
    r##"(0 -9223372036854775808)"##,
    r##"{p:-9223372036854775808 q:0}"##,
    r##"[-9223372036854775808 9223372036854775808]"##,
    r##"[9223372036854775808 -9223372036854775808 9223372036854775808]"##,
    r##"(9223372036854775808 -9223372036854775808)"##,
    r##"{p:-9223372036854775808 q:9223372036854775808}"##,
    r##"[-9223372036854775808 7]"##,
    r##"[7 -9223372036854775808 7]"##,
    r##"(7 -9223372036854775808)"##,
    r##"{p:-9223372036854775808 q:7}"##,
    r##"[-9223372036854775808 1/2]"##,
    r##"[1/2 -9223372036854775808 1/2]"##,
    r##"(1/2 -9223372036854775808)"##,
    r##"{p:-9223372036854775808 q:1/2}"##,
    r##"[-9223372036854775808 "é\n\"\$"]"##,
    r##"["é\n\"\$" -9223372036854775808 "é\n\"\$"]"##,
    r##"("é\n\"\$" -9223372036854775808)"##,
    r##"{p:-9223372036854775808 q:"é\n\"\$"}"##,
    r##"{p:-9223372036854775808 ^:{z:-9223372036854775808}}"##,
    r##"{^:-9223372036854775808}"##,
    r##"{p:0 ^:-9223372036854775808}"##,
    r##"9223372036854775807"##,
    r##"[9223372036854775807 0]"##,
    r##"[0 9223372036854775807 0]"##,
    r##"(0 9223372036854775807)"##,
    r##"{p:9223372036854775807 q:0}"##,
    r##"[9223372036854775807 9223372036854775808]"##,
    r##"[9223372036854775808 9223372036854775807 9223372036854775808]"##,
    r##"(9223372036854775808 9223372036854775807)"##,
    r##"{p:9223372036854775807 q:9223372036854775808}"##,
    r##"[9223372036854775807 7]"##,
    r##"[7 9223372036854775807 7]"##,
    r##"(7 9223372036854775807)"##,
    r##"{p:9223372036854775807 q:7}"##,
    r##"[9223372036854775807 1/2]"##,
    r##"[1/2 9223372036854775807 1/2]"##,
    r##"(1/2 9223372036854775807)"##,
    r##"{p:9223372036854775807 q:1/2}"##,
    r##"[9223372036854775807 "é\n\"\$"]"##,
    r##"["é\n\"\$" 9223372036854775807 "é\n\"\$"]"##,
    r##"("é\n\"\$" 9223372036854775807)"##,
    r##"{p:9223372036854775807 q:"é\n\"\$"}"##,
    r##"{p:9223372036854775807 ^:{z:9223372036854775807}}"##,
    r##"{^:9223372036854775807}"##,
    r##"{p:0 ^:9223372036854775807}"##,
    r##"false"##,
    r##"[false 0]"##,
    r##"[0 false 0]"##,
    r##"(0 false)"##,
    r##"{p:false q:0}"##,
    r##"[false 9223372036854775808]"##,
    r##"[9223372036854775808 false 9223372036854775808]"##,
    r##"(9223372036854775808 false)"##,
    r##"{p:false q:9223372036854775808}"##,
    r##"[false 7]"##,
    r##"[7 false 7]"##,
    r##"(7 false)"##,
    r##"{p:false q:7}"##,
    r##"[false 1/2]"##,
    r##"[1/2 false 1/2]"##,
    r##"(1/2 false)"##,
    r##"{p:false q:1/2}"##,
    r##"[false "é\n\"\$"]"##,
    r##"["é\n\"\$" false "é\n\"\$"]"##,
    r##"("é\n\"\$" false)"##,
    r##"{p:false q:"é\n\"\$"}"##,
    r##"{p:false ^:{z:false}}"##,
    r##"{^:false}"##,
    r##"{p:0 ^:false}"##,
    r##"true"##,
    r##"[true 0]"##,
    r##"[0 true 0]"##,
    r##"(0 true)"##,
    r##"{p:true q:0}"##,
    r##"[true 9223372036854775808]"##,
    r##"[9223372036854775808 true 9223372036854775808]"##,
    r##"(9223372036854775808 true)"##,
    r##"{p:true q:9223372036854775808}"##,
    r##"[true 7]"##,
    r##"[7 true 7]"##,
    r##"(7 true)"##,
    r##"{p:true q:7}"##,
    r##"[true 1/2]"##,
    r##"[1/2 true 1/2]"##,
    r##"(1/2 true)"##,
    r##"{p:true q:1/2}"##,
    r##"[true "é\n\"\$"]"##,
    r##"["é\n\"\$" true "é\n\"\$"]"##,
    r##"("é\n\"\$" true)"##,
    r##"{p:true q:"é\n\"\$"}"##,
    r##"{p:true ^:{z:true}}"##,
    r##"{^:true}"##,
    r##"{p:0 ^:true}"##,
    r##"7"##,
    r##"[7 0]"##,
    r##"[0 7 0]"##,
    r##"(0 7)"##,
    r##"{p:7 q:0}"##,
    r##"[7 9223372036854775808]"##,
    r##"[9223372036854775808 7 9223372036854775808]"##,
    r##"(9223372036854775808 7)"##,
    r##"{p:7 q:9223372036854775808}"##,
    r##"[7 7]"##,
    r##"[7 7 7]"##,
    r##"(7 7)"##,
    r##"{p:7 q:7}"##,
    r##"[7 1/2]"##,
    r##"[1/2 7 1/2]"##,
    r##"(1/2 7)"##,
    r##"{p:7 q:1/2}"##,
    r##"[7 "é\n\"\$"]"##,
    r##"["é\n\"\$" 7 "é\n\"\$"]"##,
    r##"("é\n\"\$" 7)"##,
    r##"{p:7 q:"é\n\"\$"}"##,
    r##"{p:7 ^:{z:7}}"##,
    r##"{^:7}"##,
    r##"{p:0 ^:7}"##,
    r##"-7"##,
    r##"[-7 0]"##,
    r##"[0 -7 0]"##,
    r##"(0 -7)"##,
    r##"{p:-7 q:0}"##,
    r##"[-7 9223372036854775808]"##,
    r##"[9223372036854775808 -7 9223372036854775808]"##,
    r##"(9223372036854775808 -7)"##,
    r##"{p:-7 q:9223372036854775808}"##,
    r##"[-7 7]"##,
    r##"[7 -7 7]"##,
    r##"(7 -7)"##,
    r##"{p:-7 q:7}"##,
    r##"[-7 1/2]"##,
    r##"[1/2 -7 1/2]"##,
    r##"(1/2 -7)"##,
    r##"{p:-7 q:1/2}"##,
    r##"[-7 "é\n\"\$"]"##,
    r##"["é\n\"\$" -7 "é\n\"\$"]"##,
    r##"("é\n\"\$" -7)"##,
    r##"{p:-7 q:"é\n\"\$"}"##,
    r##"{p:-7 ^:{z:-7}}"##,
    r##"{^:-7}"##,
    r##"{p:0 ^:-7}"##,
    r##"340282366920938463426481119284349108225"##,
    r##"[340282366920938463426481119284349108225 0]"##,
    r##"[0 340282366920938463426481119284349108225 0]"##,
    r##"(0 340282366920938463426481119284349108225)"##,
    r##"{p:340282366920938463426481119284349108225 q:0}"##,
    r##"[340282366920938463426481119284349108225 9223372036854775808]"##,
    r##"[9223372036854775808 340282366920938463426481119284349108225 9223372036854775808]"##,
    r##"(9223372036854775808 340282366920938463426481119284349108225)"##,
    r##"{p:340282366920938463426481119284349108225 q:9223372036854775808}"##,
    r##"[340282366920938463426481119284349108225 7]"##,
    r##"[7 340282366920938463426481119284349108225 7]"##,
    r##"(7 340282366920938463426481119284349108225)"##,
    r##"{p:340282366920938463426481119284349108225 q:7}"##,
    r##"[340282366920938463426481119284349108225 1/2]"##,
    r##"[1/2 340282366920938463426481119284349108225 1/2]"##,
    r##"(1/2 340282366920938463426481119284349108225)"##,
    r##"{p:340282366920938463426481119284349108225 q:1/2}"##,
    r##"[340282366920938463426481119284349108225 "é\n\"\$"]"##,
    r##"["é\n\"\$" 340282366920938463426481119284349108225 "é\n\"\$"]"##,
    r##"("é\n\"\$" 340282366920938463426481119284349108225)"##,
    r##"{p:340282366920938463426481119284349108225 q:"é\n\"\$"}"##,
    r##"{p:340282366920938463426481119284349108225 ^:{z:340282366920938463426481119284349108225}}"##,
    r##"{^:340282366920938463426481119284349108225}"##,
    r##"{p:0 ^:340282366920938463426481119284349108225}"##,
    r##"1/2"##,
    r##"[1/2 0]"##,
    r##"[0 1/2 0]"##,
    r##"(0 1/2)"##,
    r##"{p:1/2 q:0}"##,
    r##"[1/2 9223372036854775808]"##,
    r##"[9223372036854775808 1/2 9223372036854775808]"##,
    r##"(9223372036854775808 1/2)"##,
    r##"{p:1/2 q:9223372036854775808}"##,
    r##"[1/2 7]"##,
    r##"[7 1/2 7]"##,
    r##"(7 1/2)"##,
    r##"{p:1/2 q:7}"##,
    r##"[1/2 1/2]"##,
    r##"[1/2 1/2 1/2]"##,
    r##"(1/2 1/2)"##,
    r##"{p:1/2 q:1/2}"##,
    r##"[1/2 "é\n\"\$"]"##,
    r##"["é\n\"\$" 1/2 "é\n\"\$"]"##,
    r##"("é\n\"\$" 1/2)"##,
    r##"{p:1/2 q:"é\n\"\$"}"##,
    r##"{p:1/2 ^:{z:1/2}}"##,
    r##"{^:1/2}"##,
    r##"{p:0 ^:1/2}"##,
    r##"-3/2"##,
    r##"[-3/2 0]"##,
    r##"[0 -3/2 0]"##,
    r##"(0 -3/2)"##,
    r##"{p:-3/2 q:0}"##,
    r##"[-3/2 9223372036854775808]"##,
    r##"[9223372036854775808 -3/2 9223372036854775808]"##,
    r##"(9223372036854775808 -3/2)"##,
    r##"{p:-3/2 q:9223372036854775808}"##,
    r##"[-3/2 7]"##,
    r##"[7 -3/2 7]"##,
    r##"(7 -3/2)"##,
    r##"{p:-3/2 q:7}"##,
    r##"[-3/2 1/2]"##,
    r##"[1/2 -3/2 1/2]"##,
    r##"(1/2 -3/2)"##,
    r##"{p:-3/2 q:1/2}"##,
    r##"[-3/2 "é\n\"\$"]"##,
    r##"["é\n\"\$" -3/2 "é\n\"\$"]"##,
    r##"("é\n\"\$" -3/2)"##,
    r##"{p:-3/2 q:"é\n\"\$"}"##,
    r##"{p:-3/2 ^:{z:-3/2}}"##,
    r##"{^:-3/2}"##,
    r##"{p:0 ^:-3/2}"##,
    r##"-2.0"##,
    r##"[-2.0 0]"##,
    r##"[0 -2.0 0]"##,
    r##"(0 -2.0)"##,
    r##"{p:-2.0 q:0}"##,
    r##"[-2.0 9223372036854775808]"##,
    r##"[9223372036854775808 -2.0 9223372036854775808]"##,
    r##"(9223372036854775808 -2.0)"##,
    r##"{p:-2.0 q:9223372036854775808}"##,
    r##"[-2.0 7]"##,
    r##"[7 -2.0 7]"##,
    r##"(7 -2.0)"##,
    r##"{p:-2.0 q:7}"##,
    r##"[-2.0 1/2]"##,
    r##"[1/2 -2.0 1/2]"##,
    r##"(1/2 -2.0)"##,
    r##"{p:-2.0 q:1/2}"##,
    r##"[-2.0 "é\n\"\$"]"##,
    r##"["é\n\"\$" -2.0 "é\n\"\$"]"##,
    r##"("é\n\"\$" -2.0)"##,
    r##"{p:-2.0 q:"é\n\"\$"}"##,
    r##"{p:-2.0 ^:{z:-2.0}}"##,
    r##"{^:-2.0}"##,
    r##"{p:0 ^:-2.0}"##,
    r##"1/3"##,
    r##"[1/3 0]"##,
    r##"[0 1/3 0]"##,
    r##"(0 1/3)"##,
    r##"{p:1/3 q:0}"##,
    r##"[1/3 9223372036854775808]"##,
    r##"[9223372036854775808 1/3 9223372036854775808]"##,
    r##"(9223372036854775808 1/3)"##,
    r##"{p:1/3 q:9223372036854775808}"##,
    r##"[1/3 7]"##,
    r##"[7 1/3 7]"##,
    r##"(7 1/3)"##,
    r##"{p:1/3 q:7}"##,
    r##"[1/3 1/2]"##,
    r##"[1/2 1/3 1/2]"##,
    r##"(1/2 1/3)"##,
    r##"{p:1/3 q:1/2}"##,
    r##"[1/3 "é\n\"\$"]"##,
    r##"["é\n\"\$" 1/3 "é\n\"\$"]"##,
    r##"("é\n\"\$" 1/3)"##,
    r##"{p:1/3 q:"é\n\"\$"}"##,
    r##"{p:1/3 ^:{z:1/3}}"##,
    r##"{^:1/3}"##,
    r##"{p:0 ^:1/3}"##,
    r##"0.0"##,
    r##"[0.0 0]"##,
    r##"[0 0.0 0]"##,
    r##"(0 0.0)"##,
    r##"{p:0.0 q:0}"##,
    r##"[0.0 9223372036854775808]"##,
    r##"[9223372036854775808 0.0 9223372036854775808]"##,
    r##"(9223372036854775808 0.0)"##,
    r##"{p:0.0 q:9223372036854775808}"##,
    r##"[0.0 7]"##,
    r##"[7 0.0 7]"##,
    r##"(7 0.0)"##,
    r##"{p:0.0 q:7}"##,
    r##"[0.0 1/2]"##,
    r##"[1/2 0.0 1/2]"##,
    r##"(1/2 0.0)"##,
    r##"{p:0.0 q:1/2}"##,
    r##"[0.0 "é\n\"\$"]"##,
    r##"["é\n\"\$" 0.0 "é\n\"\$"]"##,
    r##"("é\n\"\$" 0.0)"##,
    r##"{p:0.0 q:"é\n\"\$"}"##,
    r##"{p:0.0 ^:{z:0.0}}"##,
    r##"{^:0.0}"##,
    r##"{p:0 ^:0.0}"##,
    r##""é\n\"\$""##,
    r##"["é\n\"\$" 0]"##,
    r##"[0 "é\n\"\$" 0]"##,
    r##"(0 "é\n\"\$")"##,
    r##"{p:"é\n\"\$" q:0}"##,
    r##"["é\n\"\$" 9223372036854775808]"##,
    r##"[9223372036854775808 "é\n\"\$" 9223372036854775808]"##,
    r##"(9223372036854775808 "é\n\"\$")"##,
    r##"{p:"é\n\"\$" q:9223372036854775808}"##,
    r##"["é\n\"\$" 7]"##,
    r##"[7 "é\n\"\$" 7]"##,
    r##"(7 "é\n\"\$")"##,
    r##"{p:"é\n\"\$" q:7}"##,
    r##"["é\n\"\$" 1/2]"##,
    r##"[1/2 "é\n\"\$" 1/2]"##,
    r##"(1/2 "é\n\"\$")"##,
    r##"{p:"é\n\"\$" q:1/2}"##,
    r##"["é\n\"\$" "é\n\"\$"]"##,
    r##"["é\n\"\$" "é\n\"\$" "é\n\"\$"]"##,
    r##"("é\n\"\$" "é\n\"\$")"##,
    r##"{p:"é\n\"\$" q:"é\n\"\$"}"##,
    r##"{p:"é\n\"\$" ^:{z:"é\n\"\$"}}"##,
    r##"{^:"é\n\"\$"}"##,
    r##"{p:0 ^:"é\n\"\$"}"##,
    r##""""##,
    r##"["" 0]"##,
    r##"[0 "" 0]"##,
    r##"(0 "")"##,
    r##"{p:"" q:0}"##,
    r##"["" 9223372036854775808]"##,
    r##"[9223372036854775808 "" 9223372036854775808]"##,
    r##"(9223372036854775808 "")"##,
    r##"{p:"" q:9223372036854775808}"##,
    r##"["" 7]"##,
    r##"[7 "" 7]"##,
    r##"(7 "")"##,
    r##"{p:"" q:7}"##,
    r##"["" 1/2]"##,
    r##"[1/2 "" 1/2]"##,
    r##"(1/2 "")"##,
    r##"{p:"" q:1/2}"##,
    r##"["" "é\n\"\$"]"##,
    r##"["é\n\"\$" "" "é\n\"\$"]"##,
    r##"("é\n\"\$" "")"##,
    r##"{p:"" q:"é\n\"\$"}"##,
    r##"{p:"" ^:{z:""}}"##,
    r##"{^:""}"##,
    r##"{p:0 ^:""}"##,
    r##""a b""##,
    r##"["a b" 0]"##,
    r##"[0 "a b" 0]"##,
    r##"(0 "a b")"##,
    r##"{p:"a b" q:0}"##,
    r##"["a b" 9223372036854775808]"##,
    r##"[9223372036854775808 "a b" 9223372036854775808]"##,
    r##"(9223372036854775808 "a b")"##,
    r##"{p:"a b" q:9223372036854775808}"##,
    r##"["a b" 7]"##,
    r##"[7 "a b" 7]"##,
    r##"(7 "a b")"##,
    r##"{p:"a b" q:7}"##,
    r##"["a b" 1/2]"##,
    r##"[1/2 "a b" 1/2]"##,
    r##"(1/2 "a b")"##,
    r##"{p:"a b" q:1/2}"##,
    r##"["a b" "é\n\"\$"]"##,
    r##"["é\n\"\$" "a b" "é\n\"\$"]"##,
    r##"("é\n\"\$" "a b")"##,
    r##"{p:"a b" q:"é\n\"\$"}"##,
    r##"{p:"a b" ^:{z:"a b"}}"##,
    r##"{^:"a b"}"##,
    r##"{p:0 ^:"a b"}"##,
    r##""null""##,
    r##"["null" 0]"##,
    r##"[0 "null" 0]"##,
    r##"(0 "null")"##,
    r##"{p:"null" q:0}"##,
    r##"["null" 9223372036854775808]"##,
    r##"[9223372036854775808 "null" 9223372036854775808]"##,
    r##"(9223372036854775808 "null")"##,
    r##"{p:"null" q:9223372036854775808}"##,
    r##"["null" 7]"##,
    r##"[7 "null" 7]"##,
    r##"(7 "null")"##,
    r##"{p:"null" q:7}"##,
    r##"["null" 1/2]"##,
    r##"[1/2 "null" 1/2]"##,
    r##"(1/2 "null")"##,
    r##"{p:"null" q:1/2}"##,
    r##"["null" "é\n\"\$"]"##,
    r##"["é\n\"\$" "null" "é\n\"\$"]"##,
    r##"("é\n\"\$" "null")"##,
    r##"{p:"null" q:"é\n\"\$"}"##,
    r##"{p:"null" ^:{z:"null"}}"##,
    r##"{^:"null"}"##,
    r##"{p:0 ^:"null"}"##,
    r##""^""##,
    r##"["^" 0]"##,
    r##"[0 "^" 0]"##,
    r##"(0 "^")"##,
    r##"{p:"^" q:0}"##,
    r##"["^" 9223372036854775808]"##,
    r##"[9223372036854775808 "^" 9223372036854775808]"##,
    r##"(9223372036854775808 "^")"##,
    r##"{p:"^" q:9223372036854775808}"##,
    r##"["^" 7]"##,
    r##"[7 "^" 7]"##,
    r##"(7 "^")"##,
    r##"{p:"^" q:7}"##,
    r##"["^" 1/2]"##,
    r##"[1/2 "^" 1/2]"##,
    r##"(1/2 "^")"##,
    r##"{p:"^" q:1/2}"##,
    r##"["^" "é\n\"\$"]"##,
    r##"["é\n\"\$" "^" "é\n\"\$"]"##,
    r##"("é\n\"\$" "^")"##,
    r##"{p:"^" q:"é\n\"\$"}"##,
    r##"{p:"^" ^:{z:"^"}}"##,
    r##"{^:"^"}"##,
    r##"{p:0 ^:"^"}"##,
    r##"null"##,
    r##"[null 0]"##,
    r##"[0 null 0]"##,
    r##"(0 null)"##,
    r##"{p:null q:0}"##,
    r##"[null 9223372036854775808]"##,
    r##"[9223372036854775808 null 9223372036854775808]"##,
    r##"(9223372036854775808 null)"##,
    r##"{p:null q:9223372036854775808}"##,
    r##"[null 7]"##,
    r##"[7 null 7]"##,
    r##"(7 null)"##,
    r##"{p:null q:7}"##,
    r##"[null 1/2]"##,
    r##"[1/2 null 1/2]"##,
    r##"(1/2 null)"##,
    r##"{p:null q:1/2}"##,
    r##"[null "é\n\"\$"]"##,
    r##"["é\n\"\$" null "é\n\"\$"]"##,
    r##"("é\n\"\$" null)"##,
    r##"{p:null q:"é\n\"\$"}"##,
    r##"{p:null ^:{z:null}}"##,
    r##"{^:null}"##,
    r##"{p:0 ^:null}"##,
    r##"true"##,
    r##"[true 0]"##,
    r##"[0 true 0]"##,
    r##"(0 true)"##,
    r##"{p:true q:0}"##,
    r##"[true 9223372036854775808]"##,
    r##"[9223372036854775808 true 9223372036854775808]"##,
    r##"(9223372036854775808 true)"##,
    r##"{p:true q:9223372036854775808}"##,
    r##"[true 7]"##,
    r##"[7 true 7]"##,
    r##"(7 true)"##,
    r##"{p:true q:7}"##,
    r##"[true 1/2]"##,
    r##"[1/2 true 1/2]"##,
    r##"(1/2 true)"##,
    r##"{p:true q:1/2}"##,
    r##"[true "é\n\"\$"]"##,
    r##"["é\n\"\$" true "é\n\"\$"]"##,
    r##"("é\n\"\$" true)"##,
    r##"{p:true q:"é\n\"\$"}"##,
    r##"{p:true ^:{z:true}}"##,
    r##"{^:true}"##,
    r##"{p:0 ^:true}"##,
    r##""x""##,
    r##"["x" 0]"##,
    r##"[0 "x" 0]"##,
    r##"(0 "x")"##,
    r##"{p:"x" q:0}"##,
    r##"["x" 9223372036854775808]"##,
    r##"[9223372036854775808 "x" 9223372036854775808]"##,
    r##"(9223372036854775808 "x")"##,
    r##"{p:"x" q:9223372036854775808}"##,
    r##"["x" 7]"##,
    r##"[7 "x" 7]"##,
    r##"(7 "x")"##,
    r##"{p:"x" q:7}"##,
    r##"["x" 1/2]"##,
    r##"[1/2 "x" 1/2]"##,
    r##"(1/2 "x")"##,
    r##"{p:"x" q:1/2}"##,
    r##"["x" "é\n\"\$"]"##,
    r##"["é\n\"\$" "x" "é\n\"\$"]"##,
    r##"("é\n\"\$" "x")"##,
    r##"{p:"x" q:"é\n\"\$"}"##,
    r##"{p:"x" ^:{z:"x"}}"##,
    r##"{^:"x"}"##,
    r##"{p:0 ^:"x"}"##,
    r##"[1 2]"##,
    r##"[[1 2] 0]"##,
    r##"[0 [1 2] 0]"##,
    r##"(0 [1 2])"##,
    r##"{p:[1 2] q:0}"##,
    r##"[[1 2] 9223372036854775808]"##,
    r##"[9223372036854775808 [1 2] 9223372036854775808]"##,
    r##"(9223372036854775808 [1 2])"##,
    r##"{p:[1 2] q:9223372036854775808}"##,
    r##"[[1 2] 7]"##,
    r##"[7 [1 2] 7]"##,
    r##"(7 [1 2])"##,
    r##"{p:[1 2] q:7}"##,
    r##"[[1 2] 1/2]"##,
    r##"[1/2 [1 2] 1/2]"##,
    r##"(1/2 [1 2])"##,
    r##"{p:[1 2] q:1/2}"##,
    r##"[[1 2] "é\n\"\$"]"##,
    r##"["é\n\"\$" [1 2] "é\n\"\$"]"##,
    r##"("é\n\"\$" [1 2])"##,
    r##"{p:[1 2] q:"é\n\"\$"}"##,
    r##"{p:[1 2] ^:{z:[1 2]}}"##,
    r##"{^:[1 2]}"##,
    r##"{p:0 ^:[1 2]}"##,
    r##"[0.5]"##,
    r##"[[0.5] 0]"##,
    r##"[0 [0.5] 0]"##,
    r##"(0 [0.5])"##,
    r##"{p:[0.5] q:0}"##,
    r##"[[0.5] 9223372036854775808]"##,
    r##"[9223372036854775808 [0.5] 9223372036854775808]"##,
    r##"(9223372036854775808 [0.5])"##,
    r##"{p:[0.5] q:9223372036854775808}"##,
    r##"[[0.5] 7]"##,
    r##"[7 [0.5] 7]"##,
    r##"(7 [0.5])"##,
    r##"{p:[0.5] q:7}"##,
    r##"[[0.5] 1/2]"##,
    r##"[1/2 [0.5] 1/2]"##,
    r##"(1/2 [0.5])"##,
    r##"{p:[0.5] q:1/2}"##,
    r##"[[0.5] "é\n\"\$"]"##,
    r##"["é\n\"\$" [0.5] "é\n\"\$"]"##,
    r##"("é\n\"\$" [0.5])"##,
    r##"{p:[0.5] q:"é\n\"\$"}"##,
    r##"{p:[0.5] ^:{z:[0.5]}}"##,
    r##"{^:[0.5]}"##,
    r##"{p:0 ^:[0.5]}"##,
    r##"(1)"##,
    r##"[(1) 0]"##,
    r##"[0 (1) 0]"##,
    r##"(0 (1))"##,
    r##"{p:(1) q:0}"##,
    r##"[(1) 9223372036854775808]"##,
    r##"[9223372036854775808 (1) 9223372036854775808]"##,
    r##"(9223372036854775808 (1))"##,
    r##"{p:(1) q:9223372036854775808}"##,
    r##"[(1) 7]"##,
    r##"[7 (1) 7]"##,
    r##"(7 (1))"##,
    r##"{p:(1) q:7}"##,
    r##"[(1) 1/2]"##,
    r##"[1/2 (1) 1/2]"##,
    r##"(1/2 (1))"##,
    r##"{p:(1) q:1/2}"##,
    r##"[(1) "é\n\"\$"]"##,
    r##"["é\n\"\$" (1) "é\n\"\$"]"##,
    r##"("é\n\"\$" (1))"##,
    r##"{p:(1) q:"é\n\"\$"}"##,
    r##"{p:(1) ^:{z:(1)}}"##,
    r##"{p:0 ^:(1)}"##,
    r##"{a:1}"##,
    r##"[{a:1} 0]"##,
    r##"[0 {a:1} 0]"##,
    r##"(0 {a:1})"##,
    r##"{p:{a:1} q:0}"##,
    r##"[{a:1} 9223372036854775808]"##,
    r##"[9223372036854775808 {a:1} 9223372036854775808]"##,
    r##"(9223372036854775808 {a:1})"##,
    r##"{p:{a:1} q:9223372036854775808}"##,
    r##"[{a:1} 7]"##,
    r##"[7 {a:1} 7]"##,
    r##"(7 {a:1})"##,
    r##"{p:{a:1} q:7}"##,
    r##"[{a:1} 1/2]"##,
    r##"[1/2 {a:1} 1/2]"##,
    r##"(1/2 {a:1})"##,
    r##"{p:{a:1} q:1/2}"##,
    r##"[{a:1} "é\n\"\$"]"##,
    r##"["é\n\"\$" {a:1} "é\n\"\$"]"##,
    r##"("é\n\"\$" {a:1})"##,
    r##"{p:{a:1} q:"é\n\"\$"}"##,
    r##"{p:{a:1} ^:{z:{a:1}}}"##,
    r##"{^:{a:1}}"##,
    r##"{p:0 ^:{a:1}}"##,
    r##"{^:{a:1}}"##,
    r##"[{^:{a:1}} 0]"##,
    r##"[0 {^:{a:1}} 0]"##,
    r##"(0 {^:{a:1}})"##,
    r##"{p:{^:{a:1}} q:0}"##,
    r##"[{^:{a:1}} 9223372036854775808]"##,
    r##"[9223372036854775808 {^:{a:1}} 9223372036854775808]"##,
    r##"(9223372036854775808 {^:{a:1}})"##,
    r##"{p:{^:{a:1}} q:9223372036854775808}"##,
    r##"[{^:{a:1}} 7]"##,
    r##"[7 {^:{a:1}} 7]"##,
    r##"(7 {^:{a:1}})"##,
    r##"{p:{^:{a:1}} q:7}"##,
    r##"[{^:{a:1}} 1/2]"##,
    r##"[1/2 {^:{a:1}} 1/2]"##,
    r##"(1/2 {^:{a:1}})"##,
    r##"{p:{^:{a:1}} q:1/2}"##,
    r##"[{^:{a:1}} "é\n\"\$"]"##,
    r##"["é\n\"\$" {^:{a:1}} "é\n\"\$"]"##,
    r##"("é\n\"\$" {^:{a:1}})"##,
    r##"{p:{^:{a:1}} q:"é\n\"\$"}"##,
    r##"{p:{^:{a:1}} ^:{z:{^:{a:1}}}}"##,
    r##"{^:{^:{a:1}}}"##,
    r##"{p:0 ^:{^:{a:1}}}"##,
    r##"[[] [1]]"##,
    r##"[[[] [1]] 0]"##,
    r##"[0 [[] [1]] 0]"##,
    r##"(0 [[] [1]])"##,
    r##"{p:[[] [1]] q:0}"##,
    r##"[[[] [1]] 9223372036854775808]"##,
    r##"[9223372036854775808 [[] [1]] 9223372036854775808]"##,
    r##"(9223372036854775808 [[] [1]])"##,
    r##"{p:[[] [1]] q:9223372036854775808}"##,
    r##"[[[] [1]] 7]"##,
    r##"[7 [[] [1]] 7]"##,
    r##"(7 [[] [1]])"##,
    r##"{p:[[] [1]] q:7}"##,
    r##"[[[] [1]] 1/2]"##,
    r##"[1/2 [[] [1]] 1/2]"##,
    r##"(1/2 [[] [1]])"##,
    r##"{p:[[] [1]] q:1/2}"##,
    r##"[[[] [1]] "é\n\"\$"]"##,
    r##"["é\n\"\$" [[] [1]] "é\n\"\$"]"##,
    r##"("é\n\"\$" [[] [1]])"##,
    r##"{p:[[] [1]] q:"é\n\"\$"}"##,
    r##"{p:[[] [1]] ^:{z:[[] [1]]}}"##,
    r##"{^:[[] [1]]}"##,
    r##"{p:0 ^:[[] [1]]}"##,
    r##"[[[]] []]"##,
    r##"[[[[]] []] 0]"##,
    r##"[0 [[[]] []] 0]"##,
    r##"(0 [[[]] []])"##,
    r##"{p:[[[]] []] q:0}"##,
    r##"[[[[]] []] 9223372036854775808]"##,
    r##"[9223372036854775808 [[[]] []] 9223372036854775808]"##,
    r##"(9223372036854775808 [[[]] []])"##,
    r##"{p:[[[]] []] q:9223372036854775808}"##,
    r##"[[[[]] []] 7]"##,
    r##"[7 [[[]] []] 7]"##,
    r##"(7 [[[]] []])"##,
    r##"{p:[[[]] []] q:7}"##,
    r##"[[[[]] []] 1/2]"##,
    r##"[1/2 [[[]] []] 1/2]"##,
    r##"(1/2 [[[]] []])"##,
    r##"{p:[[[]] []] q:1/2}"##,
    r##"[[[[]] []] "é\n\"\$"]"##,
    r##"["é\n\"\$" [[[]] []] "é\n\"\$"]"##,
    r##"("é\n\"\$" [[[]] []])"##,
    r##"{p:[[[]] []] q:"é\n\"\$"}"##,
    r##"{p:[[[]] []] ^:{z:[[[]] []]}}"##,
    r##"{^:[[[]] []]}"##,
    r##"{p:0 ^:[[[]] []]}"##,
    r##"[{} {a:1}]"##,
    r##"[[{} {a:1}] 0]"##,
    r##"[0 [{} {a:1}] 0]"##,
    r##"(0 [{} {a:1}])"##,
    r##"{p:[{} {a:1}] q:0}"##,
    r##"[[{} {a:1}] 9223372036854775808]"##,
    r##"[9223372036854775808 [{} {a:1}] 9223372036854775808]"##,
    r##"(9223372036854775808 [{} {a:1}])"##,
    r##"{p:[{} {a:1}] q:9223372036854775808}"##,
    r##"[[{} {a:1}] 7]"##,
    r##"[7 [{} {a:1}] 7]"##,
    r##"(7 [{} {a:1}])"##,
    r##"{p:[{} {a:1}] q:7}"##,
    r##"[[{} {a:1}] 1/2]"##,
    r##"[1/2 [{} {a:1}] 1/2]"##,
    r##"(1/2 [{} {a:1}])"##,
    r##"{p:[{} {a:1}] q:1/2}"##,
    r##"[[{} {a:1}] "é\n\"\$"]"##,
    r##"["é\n\"\$" [{} {a:1}] "é\n\"\$"]"##,
    r##"("é\n\"\$" [{} {a:1}])"##,
    r##"{p:[{} {a:1}] q:"é\n\"\$"}"##,
    r##"{p:[{} {a:1}] ^:{z:[{} {a:1}]}}"##,
    r##"{^:[{} {a:1}]}"##,
    r##"{p:0 ^:[{} {a:1}]}"##,
    r##"[([]) ([1])]"##,
    r##"[[([]) ([1])] 0]"##,
    r##"[0 [([]) ([1])] 0]"##,
    r##"(0 [([]) ([1])])"##,
    r##"{p:[([]) ([1])] q:0}"##,
    r##"[[([]) ([1])] 9223372036854775808]"##,
    r##"[9223372036854775808 [([]) ([1])] 9223372036854775808]"##,
    r##"(9223372036854775808 [([]) ([1])])"##,
    r##"{p:[([]) ([1])] q:9223372036854775808}"##,
    r##"[[([]) ([1])] 7]"##,
    r##"[7 [([]) ([1])] 7]"##,
    r##"(7 [([]) ([1])])"##,
    r##"{p:[([]) ([1])] q:7}"##,
    r##"[[([]) ([1])] 1/2]"##,
    r##"[1/2 [([]) ([1])] 1/2]"##,
    r##"(1/2 [([]) ([1])])"##,
    r##"{p:[([]) ([1])] q:1/2}"##,
    r##"[[([]) ([1])] "é\n\"\$"]"##,
    r##"["é\n\"\$" [([]) ([1])] "é\n\"\$"]"##,
    r##"("é\n\"\$" [([]) ([1])])"##,
    r##"{p:[([]) ([1])] q:"é\n\"\$"}"##,
    r##"{p:[([]) ([1])] ^:{z:[([]) ([1])]}}"##,
    r##"{^:[([]) ([1])]}"##,
    r##"{p:0 ^:[([]) ([1])]}"##,
    r##"[0]"##,
    r##"(0)"##,
    r##"[0 1]"##,
    r##"(0 1)"##,
    r##"[0 1 2]"##,
    r##"(0 1 2)"##,
    r##"[0 1 2 3]"##,
    r##"(0 1 2 3)"##,
    r##"[0 1 2 3 4]"##,
    r##"(0 1 2 3 4)"##,
    r##"[0 1 2 3 4 5]"##,
    r##"(0 1 2 3 4 5)"##,
    r##"[0 1 2 3 4 5 6]"##,
    r##"(0 1 2 3 4 5 6)"##,
    r##"[0 1 2 3 4 5 6 7]"##,
    r##"(0 1 2 3 4 5 6 7)"##,
    r##"[0 1 2 3 4 5 6 7 8]"##,
    r##"(0 1 2 3 4 5 6 7 8)"##,
    r##"[0 1 2 3 4 5 6 7 8 9]"##,
    r##"(0 1 2 3 4 5 6 7 8 9)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38)"##,
    r##"[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39]"##,
    r##"(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39)"##,
    r##"{^:{p:9 z:8} p:0}"##,
    r##"{p:0 ^:{p:9 z:8}}"##,
    r##"{p:0}"##,
    r##"{^:{p:9 z:8} p:0 q:1}"##,
    r##"{p:0 ^:{p:9 z:8} q:1}"##,
    r##"{p:0 q:1 ^:{p:9 z:8}}"##,
    r##"{p:0 q:1}"##,
    r##"{^:{p:9 z:8} p:0 q:1 r:2}"##,
    r##"{p:0 ^:{p:9 z:8} q:1 r:2}"##,
    r##"{p:0 q:1 ^:{p:9 z:8} r:2}"##,
    r##"{p:0 q:1 r:2 ^:{p:9 z:8}}"##,
    r##"{p:0 q:1 r:2}"##,
    r##"{^:{p:9 z:8} p:0 q:1 r:2 s:3}"##,
    r##"{p:0 ^:{p:9 z:8} q:1 r:2 s:3}"##,
    r##"{p:0 q:1 ^:{p:9 z:8} r:2 s:3}"##,
    r##"{p:0 q:1 r:2 ^:{p:9 z:8} s:3}"##,
    r##"{p:0 q:1 r:2 s:3 ^:{p:9 z:8}}"##,
    r##"{p:0 q:1 r:2 s:3}"##,
    r##"{^:{p:9 z:8} p:0 q:1 r:2 s:3 t:4}"##,
    r##"{p:0 ^:{p:9 z:8} q:1 r:2 s:3 t:4}"##,
    r##"{p:0 q:1 ^:{p:9 z:8} r:2 s:3 t:4}"##,
    r##"{p:0 q:1 r:2 ^:{p:9 z:8} s:3 t:4}"##,
    r##"{p:0 q:1 r:2 s:3 ^:{p:9 z:8} t:4}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 ^:{p:9 z:8}}"##,
    r##"{p:0 q:1 r:2 s:3 t:4}"##,
    r##"{^:{p:9 z:8} p:0 q:1 r:2 s:3 t:4 u:5}"##,
    r##"{p:0 ^:{p:9 z:8} q:1 r:2 s:3 t:4 u:5}"##,
    r##"{p:0 q:1 ^:{p:9 z:8} r:2 s:3 t:4 u:5}"##,
    r##"{p:0 q:1 r:2 ^:{p:9 z:8} s:3 t:4 u:5}"##,
    r##"{p:0 q:1 r:2 s:3 ^:{p:9 z:8} t:4 u:5}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 ^:{p:9 z:8} u:5}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 u:5 ^:{p:9 z:8}}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 u:5}"##,
    r##"{^:{p:9 z:8} p:0 q:1 r:2 s:3 t:4 u:5 v:6}"##,
    r##"{p:0 ^:{p:9 z:8} q:1 r:2 s:3 t:4 u:5 v:6}"##,
    r##"{p:0 q:1 ^:{p:9 z:8} r:2 s:3 t:4 u:5 v:6}"##,
    r##"{p:0 q:1 r:2 ^:{p:9 z:8} s:3 t:4 u:5 v:6}"##,
    r##"{p:0 q:1 r:2 s:3 ^:{p:9 z:8} t:4 u:5 v:6}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 ^:{p:9 z:8} u:5 v:6}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 u:5 ^:{p:9 z:8} v:6}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 u:5 v:6 ^:{p:9 z:8}}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 u:5 v:6}"##,
    r##"{^:{p:9 z:8} p:0 q:1 r:2 s:3 t:4 u:5 v:6 w:7}"##,
    r##"{p:0 ^:{p:9 z:8} q:1 r:2 s:3 t:4 u:5 v:6 w:7}"##,
    r##"{p:0 q:1 ^:{p:9 z:8} r:2 s:3 t:4 u:5 v:6 w:7}"##,
    r##"{p:0 q:1 r:2 ^:{p:9 z:8} s:3 t:4 u:5 v:6 w:7}"##,
    r##"{p:0 q:1 r:2 s:3 ^:{p:9 z:8} t:4 u:5 v:6 w:7}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 ^:{p:9 z:8} u:5 v:6 w:7}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 u:5 ^:{p:9 z:8} v:6 w:7}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 u:5 v:6 ^:{p:9 z:8} w:7}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 u:5 v:6 w:7 ^:{p:9 z:8}}"##,
    r##"{p:0 q:1 r:2 s:3 t:4 u:5 v:6 w:7}"##,
];
