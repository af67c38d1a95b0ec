#![cfg_attr(feature = "bridge", feature(proc_macro_internals))]
#![cfg_attr(feature = "nightly", feature(alloc_error_hook))]
#![allow(clippy::all)]
#![allow(internal_features, dead_code)]

#[cfg(feature = "bridge")]
extern crate proc_macro;

mod alloc;
mod driver;
mod history;
mod model;
mod plan;
mod profiles;
mod rng;
mod run;
mod sched;
#[cfg(feature = "bridge")]
mod server;
mod shared;
mod text;
mod world;

#[global_allocator]
static HEAP: alloc::Heap = alloc::Heap;

use proc_macro2::{TokenStream, TokenTree};

/// One token of a flattened stream: kind, spelling, byte range.
pub type Flat = Vec<(u8, String, usize, usize)>;

/// Plain, sendable form of a stream.
pub fn model_of(ts: &TokenStream) -> Flat {
    let mut out = Vec::new();
    let mut stack = vec![ts.clone().into_iter()];
    while let Some(it) = stack.last_mut() {
        let Some(t) = it.next() else {
            stack.pop();
            out.push((9, String::new(), 0, 0));
            continue;
        };
        #[cfg(feature = "spans")]
        let b = {
            let b = t.span().byte_range();
            (b.start, b.end)
        };
        #[cfg(not(feature = "spans"))]
        let b = (0, 0);
        match t {
            TokenTree::Group(g) => {
                out.push((world::delim_of(g.delimiter()), String::new(), b.0, b.1));
                stack.push(g.stream().into_iter());
            }
            TokenTree::Ident(i) => out.push((4, i.to_string(), b.0, b.1)),
            TokenTree::Punct(p) => {
                out.push((5 + (p.spacing() == proc_macro2::Spacing::Joint) as u8, p.as_char().to_string(), b.0, b.1))
            }
            TokenTree::Literal(l) => out.push((7, l.to_string(), b.0, b.1)),
        }
    }
    out
}

/// Was this group made by the compiler?
pub fn is_comp_group(m: &model::MTok) -> bool {
    m.is_compiler()
}

fn main() {
    driver::main()
}
