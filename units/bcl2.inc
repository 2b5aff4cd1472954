verus! { broadcast use {vstd::std_specs::vec::group_vec_axioms, vxrs::axiom_canon, vxrs::lemma_take_full}; }
