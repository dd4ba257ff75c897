//! The Python extension module, driven through a Python process
mod arrays;
mod colors;
mod methods;
mod py;
mod robust;

use d10_verif::engine::{main_with, Property};

fn c24() -> Property {
    let mut subs = arrays::subs();
    subs.extend(methods::subs());
    subs.extend(colors::subs());
    subs.extend(robust::subs());
    Property {
        id: "C24",
        level: "exploration",
        rule: "an array or image with several different values, a method with non default arguments that changed the image, \
               a colour conversion, a callback that was called, or an argument of a wrong kind",
        assumptions: vec![
            "the Rust library is the definition of the methods, other properties check it",
            "omitted options are those visible in the signatures: bilinear, factor 1, threshold 0.5, ...",
            "integer arrays may differ by one step where a value lies between two steps",
            "arguments that need more memory or time than the sandbox has are not passed",
        ],
        subs,
    }
}

fn main() {
    main_with(|id, _| (id == "C24").then(c24));
}
