FI = "path-sensitive abstract interpretation of the parsed Fortran sources (facts on branches, merged states)"

P("C22", "Runtime library procedures report every error and use nothing undefined",
  "In the Fortran runtime (src/*.F90) a procedure references an optional argument only where it is present, uses no undefined "
  "variable, defines every scalar result and intent(out) argument before it returns, and dereferences a pointer component such "
  "as this%prop only if it is associated. An error it detected (missing or uninitialized object, failed allocation, bad "
  "index or dimension) is still in errcode, with text in errmsg, when it returns: no later call resets it.",
  ["inputs", "histories"], "every path through every runtime procedure, with every combination of optional arguments",
  "Tests pass all arguments and valid objects; a lost error or an absent optional argument shows up only in other calls.",
  ["src/ccpp_constituent_prop_mod.F90", "src/ccpp_hash_table.F90", "src/ccpp_hashable.F90"],
  [("error variables", "src/ccpp_constituent_prop_mod.F90 initialize_errvars, append_errvars, handle_allocate_error"),
   ("object checks", "src/ccpp_constituent_prop_mod.F90 ccp_is_instantiated, ccp_model_const_*locked, ccpt_*"),
   ("hash table errors", "src/ccpp_hash_table.F90 hash_table_key_hash, table_value, add_hash_key")],
  FI + " with calls inlined",
  "All procedures of src/*.F90. Elements of intent(out) arrays and derived-type components are not tracked; errors of calls made without error arguments are the caller's choice.")

P("C20", "Operations on constituent properties cover every property consistently",
  "In the constituent runtime a copy has every property of its source; deallocate resets every property; equivalent is true only if "
  "all describing properties (names, units, vertical dimension, flags, default, minimum, molar mass, mixing ratio type) are equal; "
  "is_match only if the advected, thermo_active and water_species flags and units are equal. A getter returns what the setter or instantiate of "
  "that name stored; the mixing ratio type and kind follow the argument or the standard name; a failed instantiate leaves nothing. Each "
  "operation of ccpp_constituent_prop_ptr_t does what the operation of that name does on the object.",
  ["inputs"], "every constituent object and every combination of optional arguments",
  "Tests use a few constituents whose properties mostly have default values; a property that is skipped goes unnoticed.",
  ["src/ccpp_constituent_prop_mod.F90"],
  [("object operations", "src/ccpp_constituent_prop_mod.F90 copyConstituent, ccp_instantiate, ccp_deallocate, ccp_is_equivalent, ccp_is_match"),
   ("pointer operations", "src/ccpp_constituent_prop_mod.F90 ccpt_*")],
  FI + "; outcome sets compared between operations",
  "All paths of the operations for instantiated objects. The array index (set when the table is locked) and the kind (follows from the name) are not part of equivalence.")

P("C19", "The constituents object is locked, filled and reset consistently",
  "In the model constituents object (src/ccpp_constituent_prop_mod.F90) a locked table has its metadata array and locked data have all "
  "field arrays, after every sequence of operations; no operation uses an unallocated array; nothing is added to a locked table. "
  "lock_table and lock_data lock exactly when they record no error. Advected constituents get the first positions, counted from 1, and the "
  "index stored in a constituent is its position. lock_data sets its default, its minimum and zero tendencies. copy_in, copy_out and "
  "num_constituents select by every criterion given, and copies stay within the bounds of the argument.",
  ["histories", "inputs"], "every operation from every lock state, with every combination of optional arguments and every outcome of the calls inside",
  "Tests lock one small table once; orders of calls, failures in the middle and criteria in combination are not tried.",
  ["src/ccpp_constituent_prop_mod.F90"],
  [("locking", "src/ccpp_constituent_prop_mod.F90 ccp_model_const_table_lock, ccp_model_const_data_lock, ccp_model_const_reset"),
   ("positions and defaults", "src/ccpp_constituent_prop_mod.F90 ccp_model_const_table_lock, ccp_model_const_data_lock"),
   ("selection and copies", "src/ccpp_constituent_prop_mod.F90 ccp_model_const_is_match, ccp_model_const_num_match, ccp_model_const_copy_*")],
  FI + "; typestate of the lock flags and arrays",
  "All public operations. The data pointers handed to the host can be kept and used after a reset; that is outside the object.")

P("C21", "The hash table keeps every entry, finds it again and visits it once",
  "The runtime hash table (src/ccpp_hash_table.F90) links a value only if its key is not in the table, at a free place at the end of the "
  "chain its key hashes to; a key that is there is reported, never ignored. A lookup returns an entry only if the keys are equal, and none "
  "only after comparing every entry of the chain. num_values counts exactly the entries linked; initialize and clear empty the table. Every "
  "position used lies in the table. The iterator starts at the first entry, moves to the one that follows, skips none, ends after the last "
  "(at once on an empty table), and its key and value are those of its entry.",
  ["inputs", "histories"], "every table, chain length, key and order of operations",
  "The test adds a few keys to one table; long chains, empty tables, missing error arguments and the last position are not reached.",
  ["src/ccpp_hash_table.F90"],
  [("add and lookup", "src/ccpp_hash_table.F90 hash_table_add_hash_key, hash_table_table_value, hash_table_key_hash"),
   ("iterator", "src/ccpp_hash_table.F90 hash_iterator_initialize, hash_iterator_next_entry, hash_iterator_key, hash_iterator_value")],
  FI + "; inductive steps over chains and positions",
  "The iterator is considered while the table does not change. How well the hash spreads the keys is not considered.")
