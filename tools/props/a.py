AI = "path-sensitive abstract interpretation of the Python sources (typestate over branch facts)"

P("C01", "Regeneration replaces exactly the generated files whose contents changed",
  "When a generator runs into an existing output directory, each generated file afterwards has the newly "
  "generated contents: a stale or missing file is always installed. A file is left untouched (same "
  "modification time) unless its contents, or those of a group cap that a suite cap or API calls, changed, and no staging copy is left behind.",
  ["inputs", "histories"], "every previous state of the output directory and every newly generated content",
  "The unit tests generate into clean directories; the interplay of old and new files is not exercised.",
  ["scripts/file_utils.py", "scripts/mkcap.py", "scripts/mkstatic.py", "scripts/ccpp_prebuild.py", "scripts/ccpp_capgen.py"],
  [("staged files are compared with and moved over the installed ones", "scripts/file_utils.py move_modified_files; scripts/mkstatic.py API.write; scripts/mkcap.py; scripts/ccpp_prebuild.py")],
  AI, "Decides, on every path of every function that installs a staged file, that install happens iff absent or different, by content, and that staging copies are consumed. Trusts filecmp/os semantics.")

P("C02", "The same inputs give byte-identical generated files",
  "Two runs of a generator on the same inputs and options write byte-identical files: hash seeds, set iteration "
  "order, directory listing order, object identity and the clock never reach an output.",
  ["inputs", "schedules"], "every input and every hash seed / directory order",
  "Tests run with one hash seed and one directory order per process and compare few outputs.",
  ["scripts/ccpp_suite.py", "scripts/suite_objects.py", "scripts/host_cap.py", "scripts/mkstatic.py", "scripts/mkcap.py", "scripts/ccpp_prebuild.py"],
  [("collections are sorted before they are written", "scripts/*.py")],
  "interprocedural taint analysis of unordered values (sets, listings, ids, clock) to sequences and outputs",
  "Decides that no unordered iteration reaches a sequence, string or write that leaves a function, over all functions of the scripts. Values of unknown container type are assumed ordered.")

P("C03", "Metadata that disagrees with its Fortran never passes comparison",
  "For every table, if the Fortran declarations and the metadata differ in the set or order of arguments, or in a "
  "variable's type, kind, intent, optional attribute, rank or dimensions, an error is raised and generation stops. "
  "A metadata table without a Fortran counterpart and a Fortran argument list without metadata are errors too.",
  ["inputs"], "every pair of metadata table and Fortran source accepted by the parsers",
  "The tests sample about a dozen mismatches, one attribute at a time, in short argument lists.",
  ["scripts/ccpp_capgen.py"],
  [("comparison of metadata and Fortran headers", "scripts/ccpp_capgen.py compare_fheader_to_mheader, check_fortran_against_metadata")],
  AI + ": an attribute not proved equal implies a non-empty error text, which implies an exception",
  "Decides on every path of the comparison that a variable whose attribute was not found equal leaves a non-empty error text and that it is raised; array references and host/module extra variables are the documented excuses.")

P("C04", "A step that fails makes the whole run fail",
  "When a step of ccpp_capgen or ccpp_prebuild logs an error, returns a false success flag, records a syntax error, "
  "assembles an error text or catches one of the framework's exceptions, the run ends with an exception or a non-zero "
  "exit status; it never goes on to finish as if it had succeeded, and an error is never downgraded to a warning.",
  ["inputs", "fault_sequences"], "every error the generators can detect",
  "Unit tests provoke a few dozen errors, mostly by calling one function; whether every caller passes each failure on is not tested.",
  ["scripts/ccpp_prebuild.py", "scripts/ccpp_capgen.py", "scripts/mkstatic.py", "scripts/metadata_table.py", "scripts/metavar.py"],
  [("success flags and exceptions propagate to the exit status", "scripts/ccpp_prebuild.py main; scripts/ccpp_capgen.py __main__; exception handlers in scripts/")],
  AI + ": typestate of undischarged failures",
  "Decides for every logging call, success flag, exception handler and piecewise error text of the two generators that all paths lead to failure. Does not decide that a faulty input is detected in the first place. The clean mode is excluded.")
