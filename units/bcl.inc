verus! { broadcast use {vstd::std_specs::vec::group_vec_axioms}; }
