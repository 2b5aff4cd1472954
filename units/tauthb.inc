verus! { broadcast use {vstd::seq_lib::group_seq_properties, vstd::std_specs::vec::group_vec_axioms, axiom_canon, axiom_aval, axiom_aes}; }
