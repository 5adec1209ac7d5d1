"""Properties of the front end: what is read, what is rejected, what is kept."""

P("C05", "Metadata with an unknown, missing or invalid entry is rejected",
  "A metadata file is accepted only if every line of it that is not blank or a comment is part of a table; every table and section header has only known entries, "
  "a known type, and a section has a name that belongs to its table; and every variable has only known properties, all required properties (local name, standard name, "
  "units, dimensions, type and, for schemes, intent) with a non-empty value, and only values that pass the check of the property: its type, its list of valid values and its check function "
  "(identifiers of at most the allowed length, standard names, units, dimensions, Fortran types that are intrinsic or known DDTs, literals of the right type, one of in / out / inout). "
  "A protected variable with an intent other than in is rejected. Anything else raises an error or adds one to the messages of the file, and no table of a file with messages is returned.",
  ["inputs"], "every text of a metadata file",
  "Tests read a dozen wrong files; each check of each property has many more ways to be wrong than that.",
  ["scripts/metadata_table.py", "scripts/metavar.py", "scripts/var_props.py", "scripts/parse_tools/parse_checkers.py", "scripts/parse_tools/parse_object.py"],
  [("file", "scripts/metadata_table.py parse_metadata_file, MetadataTable.__init_from_file, MetadataSection.__init_from_file, parse_variable"),
   ("variable", "scripts/metavar.py Var.__init__, Var.__spec_props / __var_props; scripts/var_props.py VariableProperty.valid_value"),
   ("checks", "scripts/parse_tools/parse_checkers.py check_*; scripts/parse_tools/parse_object.py ParseObject.add_syntax_err")],
  "path-sensitive interpretation of the readers with one typestate per loop iteration (error recorded / validated / stored), path facts of each check function against a table of what it must establish, comparison of the declared properties with a table",
  "The regular expressions themselves (which texts match the pattern of a standard name, say) are not judged, only that what is accepted has matched. A property given twice for one variable is not an error.")

P("C17", "Code that only runs to report an error refers to things that exist",
  "In every function of the Python scripts, on the paths that only bad input reaches as much as on the others: every name that is read is defined in the function, an enclosing one, "
  "the module or Python; no local variable is read at a place that no assignment to it can reach, and no exception handler reads a variable that only the failing statement would have assigned; "
  "an attribute or method read from the object itself, a class of the framework or a module exists there, and any other attribute exists in some class of the framework or of the Python library; "
  "the arguments of every call whose target is known (number and keyword names) fit the parameters of that function or constructor; a message gets at least the values "
  "its format asks for, by position and by name (exactly as many for a % format); the result of a framework function is unpacked into as many names as it has parts; and no bound method is compared where its result is meant. "
  "So bad input ends in the diagnosis written for it and not in a NameError, AttributeError, TypeError, IndexError or KeyError.",
  ["inputs", "programs"], "every input, in particular every invalid one",
  "Most of the code of the scripts' error paths is never executed by a test: each needs its own bad input.",
  ["scripts/*.py", "scripts/parse_tools/*.py", "scripts/fortran_tools/*.py", "scripts/conversion_tools/*.py"],
  [("all", "every function of scripts/")],
  "name resolution (symbol tables), forward may-assigned dataflow, attribute resolution over the class hierarchy, call-signature matching, constant propagation of format strings, result arity",
  "A variable assigned on some but not all paths to its use is not reported (the conditions that tie the two together are out of reach), nor an attribute that exists in another class only, "
  "nor a format whose text is not a constant.")

P("C09", "Group arguments permit what the schemes do; protected variables are read-only",
  "In ccpp_capgen the intent of an argument of a suite part (group) permits what every scheme of the group does with the variable: where declarations of one variable with different intents meet, "
  "the intent becomes inout (or, where they may not be merged, an error is raised), equal intents stay as they are; every scheme argument with a source reaches the call list of its scheme and of its group, "
  "with an intent, and one without a source becomes a variable of the group. A variable marked protected never takes an intent other than in, and a scheme argument with intent out or inout "
  "that would be connected to a protected variable is an error; a dummy argument of the host's interface has intent in if it is protected or a loop variable and inout otherwise. "
  "ccpp_prebuild joins the intents of the dummy arguments of its group and suite caps in the same way.",
  ["inputs"], "every sequence of intents of the schemes of a group, every variable, protected or not",
  "Which intents meet, and in which order, depends on the suite; the tests have a few of the combinations, and only a Fortran compiler or wrong results show a wrong one.",
  ["scripts/metavar.py", "scripts/suite_objects.py", "scripts/host_cap.py", "scripts/mkstatic.py"],
  [("prebuild merge", "scripts/mkstatic.py Group.write, Suite.write"),
   ("merge", "scripts/metavar.py Var.adjust_intent, VarDictionary.add_variable"),
   ("scheme to group", "scripts/suite_objects.py Scheme.analyze, Scheme.update_group_call_list_variable, SuiteObject.add_call_list_variable"),
   ("protection", "scripts/suite_objects.py SuiteObject.match_variable; scripts/host_cap.py write_host_cap")],
  "abstract interpretation of the merging functions for each combination of the finitely many intents, compared with the join of the intent lattice; typestate per scheme argument from match to call list",
  "That intents of the metadata agree with the Fortran source is C03. Only where intents are merged and call lists extended is judged; what a scheme does with its argument is not.")
