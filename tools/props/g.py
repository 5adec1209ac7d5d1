"""Properties of the code base that static analysis cannot decide here (not claimed)."""

P("C06", "What the generators accept compiles",
  "Whenever ccpp_capgen or ccpp_prebuild ends with success, the Fortran they wrote compiles together with the host model and the schemes.",
  ["programs"], "every host model, set of suites and schemes that is accepted",
  "The tests compile what is generated for a handful of suites.",
  ["scripts/ccpp_suite.py", "scripts/suite_objects.py", "scripts/host_cap.py", "scripts/mkstatic.py"],
  [("text", "scripts/*.py, every outfile.write")],
  "none", "Parts of it are claimed: C03 (metadata against Fortran), C07 and C29 (compatible arguments), C09 (intents), C12 (blocks), C18 (names).", False,
  "That a text is accepted by a Fortran compiler is a property of the text for all metadata: kinds, ranks, use lists and names come from the inputs, and the schemes' and the host's source decide too. "
  "An abstract text domain that could type-check Fortran symbolically is out of reach; compiling samples would be testing. The parts that can be decided are separate properties.")

P("C11", "A suite computes what its schemes called in order by hand compute",
  "For every suite, the fields of the host after a phase are those the schemes give when they are called by hand in the order of the suite, with the same arguments.",
  ["programs", "inputs"], "every suite, and all values of the fields",
  "The tests run two suites with one set of fields each.",
  ["scripts/suite_objects.py", "scripts/mkstatic.py", "src/ccpp_types.F90"],
  [("calls", "scripts/suite_objects.py Group.write, Scheme.write; scripts/mkstatic.py Group.write")],
  "none", "Order, arguments and conversions of the calls are claimed separately (C08, C10, C16, C30, C32).", False,
  "Equality of the values two programs compute at run time, with floating point conversions and schemes that are not part of the repository; no static argument bounds it.")

P("C23", "Group caps are safe to call from several threads",
  "Host models may call the caps of ccpp_prebuild from several threads at once with their own block and instance: no two calls interfere.",
  ["schedules"], "all interleavings of calls", "The tests run one thread.",
  ["scripts/mkstatic.py", "src/ccpp_types.F90"],
  [("saved variables", "scripts/mkstatic.py Group.write, initialized(:)")],
  "none", "C10 decides that a call only reads and sets the flag of its own instance.", False,
  "The only state of a cap is the flag of its instance (C10); whatever else is shared are the host's variables and the schemes' module data, which are not in this repository, so whether calls interfere cannot be decided from it.")

P("C25", "The Fortran reader understands every declaration a host or scheme may hold",
  "For every conforming Fortran module, the reader finds the declarations of the variables the metadata tables are about, with the type, kind, intent and dimensions a compiler sees.",
  ["inputs"], "all Fortran source a host or scheme may have", "The tests read a few modules.",
  ["scripts/fortran_tools/parse_fortran_file.py", "scripts/fortran_tools/parse_fortran.py"],
  [("reader", "scripts/fortran_tools/parse_fortran_file.py parse_specification; scripts/fortran_tools/parse_fortran.py parse_fortran_var_decl")],
  "none", "What is done with the declarations read is claimed (C03).", False,
  "The reader is a set of regular expressions for a subset of Fortran; the oracle would be the grammar of the language with its includes and preprocessing, and equality of the languages of a grammar and of this code is undecidable; "
  "sampling declarations would be testing.")
