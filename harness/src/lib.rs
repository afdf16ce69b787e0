pub mod case;
pub mod exact;
pub mod gen;
pub mod oracle;
pub mod rng;
pub mod shrink;
pub mod hostile;
pub mod drive;
pub mod modes;
pub mod run;
