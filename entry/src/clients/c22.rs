//! C22: the obligations are on the type checker, see /witness.
