//! The setters, each in one of its two forms (`with_x` and `set_x`), which have to mean the same. The form
//! depends on the value, so that the choice replays with the case.
use sieve::{Compiler, Runtime};

macro_rules! pairs {
    ($trait:ident for $ty:ty { $($name:ident($arg:ty) $with:ident $set:ident;)* }) => {
        pub trait $trait: Sized {
            $(fn $name(self, n: $arg) -> Self;)*
        }
        impl $trait for $ty {
            $(fn $name(mut self, n: $arg) -> Self {
                if n % 2 == 1 {
                    self.$set(n);
                    self
                } else {
                    self.$with(n)
                }
            })*
        }
    };
}

pairs!(CompilerSet for Compiler {
    either_max_header_size(usize) with_max_header_size set_max_header_size;
    either_max_includes(usize) with_max_includes set_max_includes;
    either_max_nested_blocks(usize) with_max_nested_blocks set_max_nested_blocks;
    either_max_nested_tests(usize) with_max_nested_tests set_max_nested_tests;
    either_max_nested_foreverypart(usize) with_max_nested_foreverypart set_max_nested_foreverypart;
    either_max_script_size(usize) with_max_script_size set_max_script_size;
    either_max_string_size(usize) with_max_string_size set_max_string_size;
    either_max_variable_name_size(usize) with_max_variable_name_size set_max_variable_name_size;
    either_max_match_variables(usize) with_max_match_variables set_max_match_variables;
    either_max_local_variables(usize) with_max_local_variables set_max_local_variables;
});

pairs!(RuntimeSet for Runtime {
    either_cpu_limit(usize) with_cpu_limit set_cpu_limit;
    either_max_nested_includes(usize) with_max_nested_includes set_max_nested_includes;
    either_max_redirects(usize) with_max_redirects set_max_redirects;
    either_max_out_messages(usize) with_max_out_messages set_max_out_messages;
    either_max_received_headers(usize) with_max_received_headers set_max_received_headers;
    either_max_variable_size(usize) with_max_variable_size set_max_variable_size;
    either_max_header_size(usize) with_max_header_size set_max_header_size;
    either_default_vacation_expiry(u64) with_default_vacation_expiry set_default_vacation_expiry;
    either_default_duplicate_expiry(u64) with_default_duplicate_expiry set_default_duplicate_expiry;
});
