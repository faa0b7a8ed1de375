pub use clap_derive::{Args, Parser, Subcommand, ValueEnum};
