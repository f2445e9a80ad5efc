//! Properties of latex-ast as assertions over symbolic inputs. One entry point per property (`p_*`).
pub mod built;
pub mod compare;
pub mod gen;
pub mod oracle;
pub mod parsing;
pub mod raise;
pub mod sym;
