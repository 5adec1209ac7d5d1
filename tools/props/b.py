AI = "path-sensitive abstract interpretation of the Python sources (typestate over branch facts)"

P("C08", "Unit conversions are physically right and applied in the right direction",
  "Every conversion formula equals the physical conversion its name states, carries the kind on its literals and is undone by "
  "its reverse. In code generated by ccpp_capgen and ccpp_prebuild, an argument whose units (or kind) differ from the "
  "host's is converted to the scheme's units before the call iff the scheme reads it and converted back after the call "
  "iff it writes it, using the formula, kind and indices of that direction, and the call gets the converted copy.",
  ["inputs"], "every pair of convertible units, every intent and every scheme argument",
  "Tests check about ten formulas by their text and one generated suite; a wrong factor or direction runs without an error.",
  ["scripts/conversion_tools/unit_conversion.py", "scripts/var_props.py", "scripts/suite_objects.py", "scripts/mkcap.py", "scripts/mkstatic.py", "scripts/ccpp_prebuild.py"],
  [("conversion formulas", "scripts/conversion_tools/unit_conversion.py"),
   ("choice and placement of transforms", "scripts/var_props.py VarCompatObj; scripts/suite_objects.py Scheme.add_var_transform, Scheme.write; scripts/mkcap.py Var.convert_to/from; scripts/mkstatic.py Group.write")],
  AI + "; formulas evaluated as affine functions against a table of SI units",
  "Decides all constant affine formulas, and for every path the direction, kind, indices and placement of transforms. Vertical flipping indices and non-affine formulas are not decided.")

P("C29", "ccpp_prebuild accepts only variables that are provided, unambiguous, compatible",
  "ccpp_prebuild succeeds only if every variable a called scheme requests is provided by exactly one host definition that has "
  "the same standard name, type, kind and rank as every single request (character len=* matches any length), and every scheme of "
  "every suite has metadata. Variables of several tables are joined only if compatible, and joining loses none. Filtering "
  "by suite keeps every variable, argument list and dependency of every scheme that any given suite calls, whatever it is named.",
  ["inputs"], "all metadata tables, all suite definitions",
  "The unit tests use a handful of well-formed tables; a variable accepted by mistake is passed with the wrong type or rank.",
  ["scripts/ccpp_prebuild.py", "scripts/mkcap.py", "scripts/metadata_parser.py", "scripts/mkstatic.py"],
  [("comparison and filtering", "scripts/ccpp_prebuild.py compare_metadata, check_schemes_in_suites, filter_metadata"),
   ("compatibility of two variables", "scripts/mkcap.py Var.compatible"),
   ("joining of tables", "scripts/metadata_parser.py merge_dictionaries, read_new_metadata")],
  AI + " of each function against facts every accepting path must establish",
  "For every path of the comparing, joining and filtering functions. Which units can be converted is decided by C08; that errors end the run by C04.")

P("C07", "ccpp_capgen connects arguments only to compatible variables",
  "In ccpp_capgen a scheme argument is connected to a host, suite or group variable, and two declarations of one variable are "
  "merged, only if standard name and type are equal, the kinds are equal or convertible (character lengths: equal, or one "
  "is *), the units are equal or convertible both ways, and the dimensions match in the same order; otherwise an error is raised. Variables "
  "are called equivalent only if no kind, unit or vertical transformation is needed between them.",
  ["inputs"], "every pair of variables and every place where ccpp_capgen compares variables",
  "Tests compare a dozen pairs; a pair accepted by mistake gives caps that do not compile, or pass wrong data.",
  ["scripts/var_props.py", "scripts/metavar.py", "scripts/suite_objects.py", "scripts/host_cap.py"],
  [("comparison of two variables", "scripts/var_props.py VarCompatObj; scripts/metavar.py Var.compatible"),
   ("places that rely on it", "scripts/suite_objects.py SuiteObject.match_variable, add_call_list_variable; scripts/metavar.py VarDictionary.add_variable; scripts/host_cap.py")],
  AI + ": facts on every accepting path",
  "All paths of VarCompatObj.__init__ and its helpers; all uses of Var.compatible in the capgen modules. How single dimensions are paired in match_dimensions is not decided.")

P("C10", "Suite phases run only in lifecycle order, releasing what they allocate",
  "A generated capgen suite starts uninitialized; each group routine (register, initialize, timestep_initial, run, timestep_final, "
  "finalize) clears the error variables, then returns with a nonzero error code unless the suite is in the state its phase "
  "starts from, then allocates, calls its schemes, deallocates its local arrays, and moves the suite to the state after the phase. "
  "Suite arrays that initialize (timestep_initial) allocates are exactly those that finalize (timestep_final) deallocates. A prebuild "
  "group cap runs timestep_init, run or timestep_finalize only for an instance that is initialized and not yet finalized (else "
  "it returns a nonzero ierr), initializes an instance once, and finalizing one instance leaves the others alone.",
  ["histories", "inputs"], "every order of phase calls, every suite, every instance",
  "Tests call the phases in the right order of a few suites; a wrong order runs schemes on unallocated data.",
  ["scripts/ccpp_state_machine.py", "scripts/state_machine.py", "scripts/ccpp_suite.py", "scripts/suite_objects.py", "scripts/mkstatic.py"],
  [("state table and accessors", "scripts/ccpp_state_machine.py; scripts/state_machine.py StateMachine"),
   ("generated state code", "scripts/ccpp_suite.py Suite.check_suite_state, set_suite_state, write; scripts/suite_objects.py Group.write, Group.analyze"),
   ("prebuild caps", "scripts/mkstatic.py Group.initialized_test_blocks, initialized_set_blocks, write")],
  AI + " of the cap writers, per phase; constant tables and templates",
  "Decides the order of statements every run of the writers can emit, for each phase. That the emitted Fortran is executed in that order is Fortran semantics; a scheme error does not stop the state change (not claimed).")

P("C15", "Clean removes what a run generated, and nothing else",
  "ccpp_prebuild --clean removes every file ccpp_prebuild writes at the places its configuration names (makefile, cmake and source "
  "lists, HTML and LaTeX tables, static API with or without a namespace, group and suite caps) and nothing it does not write: no "
  "configured directory, no configured input, only caps named ccpp_*_cap.F90. ccpp_capgen --clean removes the host cap, suite caps and "
  "kinds module that its datatable lists, and the datatable, but none of the framework sources and dependencies listed with them. Every "
  "host cap, suite cap and kinds module ccpp_capgen writes is listed in the datatable under its heading. Cleaning generates no files "
  "and generating cleans none.",
  ["configurations", "inputs"], "every configuration, namespace and datatable",
  "No test runs --clean; a stale cap would be compiled into the next build, a removed source is lost.",
  ["scripts/ccpp_prebuild.py", "scripts/ccpp_capgen.py", "scripts/ccpp_datafile.py", "scripts/mkstatic.py"],
  [("removal", "scripts/ccpp_prebuild.py clean_files; scripts/ccpp_capgen.py clean_capgen"),
   ("what is written", "scripts/ccpp_prebuild.py main; scripts/ccpp_capgen.py capgen; scripts/ccpp_datafile.py _add_generated_files")],
  AI + " of the removers; interprocedural write sets by configuration key",
  "Compares the configuration keys (capgen: datatable sections) whose files are written with those whose files are removed. Files named outside the configuration (CCPP_VARIABLES include file) are not decided.")

P("C18", "Two variables of one scope never share a standard name or a Fortran name",
  "In every dictionary of variables of ccpp_capgen (host model, tables of metadata, call lists of schemes, groups and of the host's interface, variables of groups and suites) a standard name belongs to one variable: "
  "a second one is an error unless the caller allows it and it is compatible, and then the first stays; in the host model components of its types count too. "
  "No two variables have the same Fortran name, in upper or lower case: a newcomer whose name is in use gets a new one where the generator names things (call lists, variables of groups), and is an error elsewhere. "
  "A new name is one that is not in use, of at most the given length, and is in use from then on; a name that is in use is found whatever its case.",
  ["histories"], "every sequence of additions to every dictionary, all names",
  "The doctests add two variables to a dictionary; a third of the same name, capital letters or a renamed one are not among them, nor are suites whose schemes name different things alike.",
  ["scripts/metavar.py", "scripts/host_model.py", "scripts/suite_objects.py", "scripts/host_cap.py"],
  [("dictionary", "scripts/metavar.py VarDictionary.add_variable, find_local_name, new_internal_variable_name"),
   ("overrides", "scripts/host_model.py HostModel.add_variable; scripts/suite_objects.py CallList.add_variable"),
   ("renaming", "scripts/suite_objects.py add_variable_to_call_tree, add_call_list_variable, Group.manage_variable; scripts/ccpp_suite.py API.__init__; scripts/host_cap.py unique_local_name")],
  "abstract interpretation of add_variable (one step of every history): facts each path has about both names when it stores the variable, and what is recorded afterwards; of the search and of the generator of names with facts per turn of its loop",
  "One dictionary at a time: that a variable of a group has another name than an argument of the group, which is kept in another dictionary, is not judged (such a suite does not compile). Variables are removed only when they move to another dictionary.")
