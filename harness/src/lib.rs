#![allow(dead_code, unused_imports, unused_variables)]
pub mod big;
pub mod classes;
pub mod index;
pub mod lsx;
pub mod merging;
pub mod modes;
pub mod phases;
pub mod pool;
pub mod refid;
pub mod rngs;
pub mod tree;
pub mod val;
pub mod variants;

macro_rules! entries {
    ($($path:path, $name:literal: $($n:ident)*;)*) => {
        /// Calls an entry by name.
        pub fn call(
            entry: &str,
            args: &[u64],
        ) -> bool
        {
            match entry {
                $(
                    #[cfg(feature = $name)]
                    $name => {
                        let mut it = args.iter().copied();
                        $( let $n = it.next().expect("argument"); )*
                        assert!(it.next().is_none());
                        $path($($n),*);
                        true
                    }
                )*
                _ => false,
            }
        }
    };
}

entries! {
    big::big, "big": a b c d e f;
    big::big_limited, "big_limited": a b c d e f;
    big::big_precheck, "big_precheck": a b c d e f g;
    index::index_step, "index_step": a b;
    index::star_trans, "star_trans": a b c d;
    index::index_star, "index_star": a b c d;
    index::index_wide, "index_wide": a b c d;
    classes::classes, "classes": a b c d e;
    classes::classes_long, "classes_long": a b c d;
    merging::merging, "merging": a b c d;
    phases::phases, "phases": a b c d;
    rngs::rng, "rng": a b c d;
    refid::refid, "refid": a b;
    modes::modes, "modes": a b c d;
    modes::modes_precheck, "modes_precheck": a b c d e;
    tree::tree, "tree": a b c d;
    pool::pool, "pool": a b c d e f g;
    pool::pool_phases, "pool_phases": a b c d e f g;
    pool::pool_limited, "pool_limited": a b c d e f g h;
    pool::pool_precheck, "pool_precheck": a b c d e f g h i;
    pool::pool_swap, "pool_swap": a b c d e f g;
    pool::pool_trans, "pool_trans": a b c d e f g;
    tree::tree_limited, "tree_limited": a b c d e;
    tree::tree_swap, "tree_swap": a b c d;
    tree::tree_cmp, "tree_cmp": a b c d e;
    pool::pool_self, "pool_self": a b c d e;
}
