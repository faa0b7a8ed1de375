//! Command line parsing is not modelled: the derives produce nothing.
use proc_macro::TokenStream;
macro_rules! nothing {
    ($f:ident, $t:ident) => {
        #[proc_macro_derive($t, attributes(clap, arg, command, value))]
        pub fn $f(_: TokenStream) -> TokenStream {
            TokenStream::new()
        }
    };
}
nothing!(args, Args);
nothing!(subcommand, Subcommand);
nothing!(value_enum, ValueEnum);
nothing!(parser, Parser);
