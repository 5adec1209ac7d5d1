"""Properties of what a run tells about itself."""

P("C14", "The datatable reports the files, schemes and variables of the run",
  "The datatable that ccpp_capgen writes has an entry for every file it generated (host cap, suite caps, kinds module), every suite, group, scheme and dictionary of variables of the run, and every dependency "
  "of host and schemes; a scheme has one entry, whatever number of groups it is in. Each report of ccpp_datafile looks where the writer writes and lists what it is about and nothing else: the files of the section asked for, "
  "the process of each scheme, the modules, the dependencies, the suites; for a suite, the variables in the call lists of its own groups with the intents asked for (required: all; input: in, inout; output: out, inout), "
  "and, if protected variables are to be excluded, none that is protected in its dictionary, in one above it or in the host.",
  ["programs"], "every host model, set of suites and schemes; every report, intent and protection",
  "The tests query a few hand-written tables, and the two end-to-end tables they have hold neither a scheme in two groups nor suites that could be confused.",
  ["scripts/ccpp_datafile.py", "scripts/ccpp_capgen.py", "scripts/ccpp_suite.py", "scripts/host_cap.py"],
  [("writer", "scripts/ccpp_datafile.py generate_ccpp_datatable, _new_scheme_entry, _new_variable_dictionary, _new_var_entry"),
   ("reports", "scripts/ccpp_datafile.py datatable_report, _retrieve_*, _find_var_dictionary, _is_variable_protected"),
   ("files", "scripts/ccpp_capgen.py capgen; scripts/ccpp_suite.py API.write, Suite.write")],
  "abstract interpretation of writer and reports over one symbolic tree (elements are paths of tags); the reports' reads are composed with the writer's stores; finite case split over intents and protection",
  "--show and its layout are not judged, nor the modules of schemes that have no run phase (the writer leaves their phases out on purpose). Elements are identified by the path of their tags.")

P("C16", "A variable that exists under a condition is used only under that condition",
  "A variable of the host may be active only under a condition. In the group caps of ccpp_capgen, every line that reads, writes, transforms or checks such a variable for a scheme lies in an IF block on the condition; "
  "an optional argument is passed as a pointer of the group which is null at the start of every call of the group, and, before the scheme is called, is associated, under the condition, with the group's variable "
  "of that standard name or with its transformed copy; an argument that is not optional is never connected to a variable with a condition. ccpp_capgen and ccpp_prebuild both translate a condition word by word: operators and "
  "numbers stay, each standard name becomes the local name of the variable that has it, and what cannot be translated is an error, never left out.",
  ["programs"], "every host model, suite and scheme: all combinations of optional, active, transformed, intents, phases",
  "The tests have one suite with a few optional arguments, whose local names are the same in all schemes, and conditions of one word.",
  ["scripts/suite_objects.py", "scripts/metavar.py", "scripts/mkstatic.py"],
  [("use", "scripts/suite_objects.py Scheme.write, write_var_debug_check, add_var_transform, optional_var_condition, CallList.call_string"),
   ("pointers", "scripts/suite_objects.py Scheme.analyze, Group.write; scripts/metavar.py Var.write_ptr_def"),
   ("acceptance", "scripts/suite_objects.py SuiteObject.match_variable"),
   ("translation", "scripts/metavar.py Var.conditional; scripts/mkstatic.py Group.write")],
  "abstract interpretation of the writers with a typestate of the open IF blocks; per element of the scheme's lists, facts every path must establish before the call; translation loops judged per kind of word",
  "Where the group of ccpp_prebuild associates its pointers is not judged. Array arguments of conditions (indices) are an error in both generators.")

P("C32", "Group caps of ccpp_prebuild hand each scheme its variables and take them back",
  "In the group caps of ccpp_prebuild, every argument of a scheme that the metadata list is passed, by the name of the dummy argument, and is the host's variable itself, or a local copy of it when the units differ or, outside of the run phase, "
  "when the host keeps it in blocks. A copy is allocated, filled from that variable (converted if there is a conversion for input) before the call; after it, if the scheme may have changed it, converted and copied back into the "
  "same variable, and deallocated in any case. A variable with a condition is passed by a pointer that is associated before and nullified after the call, and every line for it lies in an IF block on the condition. "
  "Copies and pointers that are kept for later schemes are kept under the name of the host's variable, and have a name of their own. A subcycle is a loop in the run phase only, with the number of turns of the suite.",
  ["programs"], "every host model, suite and scheme: units, blocks, conditions, intents, phases, repeated requests",
  "The tests build one suite per feature (blocks, units, optional arguments), each with one or two schemes and one or two variables.",
  ["scripts/mkstatic.py"],
  [("arguments", "scripts/mkstatic.py Group.write, loop over arguments"), ("loops", "scripts/mkstatic.py Group.write, loop over subcycles")],
  "abstract interpretation of one turn of the loop over arguments; the lines each path adds before and after the call are read as a small program and judged against what the path knows of intent, conversion, phase and condition; keys and names of what is kept for later turns",
  "The index ranges that are put behind a name (dim_string) are not judged here, nor is the order in which schemes are called.")

P("C24", "Schemes are called in the order, and as often, as the suite definition gives",
  "ccpp_prebuild reads the groups, subcycles (with their number of turns) and schemes of a suite definition, and the init and finalize groups, in their order and each as often as it is there; in every phase the suite cap calls "
  "each group once, in this order (init and finalize groups only in their own phase), and each group cap calls the schemes of its subcycles in this order, each as often as it is listed. The call tree lists the schemes in the order of the calls. "
  "ccpp_capgen reads the groups and their schemes, subcycles and time splits in the order of the suite definition, keeps the parts of a group in the order in which they are added, and calls in each group every part once, in this order; "
  "every scheme writes one call, of its own routine. A scheme of the suite that has routines for other phases is called once by each of their groups.",
  ["programs"], "every suite definition: groups, subcycles and repeated schemes; every phase",
  "The tests have a few suites; a scheme that is used twice in a subcycle, or in several subcycles, appears in none of the tests that look at the calls.",
  ["scripts/mkstatic.py", "scripts/suite_objects.py", "scripts/ccpp_suite.py"],
  [("prebuild", "scripts/mkstatic.py Suite.parse, Suite.write, Group.write"),
   ("capgen, structure", "scripts/suite_objects.py Group/Subcycle/TimeSplit.__init__, SuiteObject.add_part, parts; scripts/ccpp_suite.py Suite.parse, Suite.analyze"),
   ("capgen, calls", "scripts/suite_objects.py Group.write, Scheme.write, Subcycle.write, TimeSplit.write, VerticalLoop.write")],
  "abstract interpretation of readers and writers over one schematic suite in which only the structure is known; what is read must be this structure, and the calls on every path must be those of the structure, in its order",
  "In the phases other than run, the groups of ccpp_capgen call their schemes in an order of their own (that of the scheme library); only that each is called once is claimed. The DO loop around a subcycle of ccpp_prebuild is part of C32. "
  "Subcycles of ccpp_capgen end with an error at this commit; only their structure is judged. How often a vertical loop is made is not judged.")
