pub mod dict;
pub mod h1;
pub mod h1gen;
pub mod h1model;
pub mod h2;
pub mod known;
pub mod mem;
pub mod props;
pub mod run;
pub mod stats;
pub mod tape;
