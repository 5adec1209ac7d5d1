"""Properties of the generated text, of the command line tools and of the files they read and write."""

TF = "path-sensitive interpretation of the generating functions over the text they write (conditions correlated by name versions, loops to a fixpoint)"

P("C12", "The blocks of generated Fortran are closed where they are opened",
  "On every path through the functions that generate Fortran (suite caps, group caps, host caps, constituent routines, introspection "
  "routines, and the static caps of ccpp_prebuild) the module, subroutine, function, if, do, select, associate and interface blocks they "
  "write nest: every block is closed, by the end statement of its own kind, in every branch; no else or end appears without the block it "
  "belongs to, and no else follows the last else. This holds for any (non-zero) number of suites and groups and for any subcycles, schemes and variables.",
  ["inputs", "configurations"], "every combination of suites, phases, variables and options that takes a different path in the generators",
  "Tests generate and compile a handful of suites; a branch none of them takes can write unbalanced code.",
  ["scripts/ccpp_suite.py", "scripts/suite_objects.py", "scripts/host_cap.py", "scripts/constituents.py", "scripts/mkstatic.py", "scripts/fortran_tools/fortran_write.py"],
  [("capgen text", "scripts/ccpp_suite.py API.write_*; scripts/suite_objects.py *.write; scripts/host_cap.py write_host_cap; scripts/constituents.py write_*"),
   ("prebuild text", "scripts/mkstatic.py API.write, Suite.write, Group.write")],
  TF + "; balance of block statements",
  "Where the first iteration of a loop starts a chain (if / else if) the loop is taken to run at least once (at least one suite and one "
  "group in each). Text that comes from metadata (names, kinds) holds no block statements. That the text is valid Fortran otherwise is not claimed.")

P("C13", "After an error generated code calls nothing more and returns the error",
  "In every cap written by either generator a scheme, group, suite or constituent routine that reports errors is called only while no error "
  "is pending: on every path of the generated text the error code it sets is tested before the next such call (also before the next "
  "iteration of a generated loop and before the next part of a suite), and nothing sets the code back to zero while it may hold an error. "
  "In the caps of ccpp_prebuild the result of a generated function is set to the error on every path that returns because of one.",
  ["inputs", "configurations"], "every combination of suites, schemes, variables and options that takes a different path in the generators",
  "The schemes that tests run do not fail, so what follows a failure is never executed.",
  ["scripts/suite_objects.py", "scripts/ccpp_suite.py", "scripts/host_cap.py", "scripts/constituents.py", "scripts/mkstatic.py"],
  [("capgen", "scripts/suite_objects.py Scheme.write, Subcycle.write, Group.write; scripts/constituents.py write_*; scripts/host_cap.py"),
   ("prebuild", "scripts/mkstatic.py API.write, Suite.write, Group.write")],
  TF + "; effect algebra of the error state (needs no error / may leave one / returns)",
  "The variable that holds an error is recognised by name where names are literal (err*, *flg*) and by position in the template otherwise; "
  "calls that pass no error argument are not judged. That schemes themselves set their error code is their business.")

P("C30", "Generated dispatchers run what is asked for and reject what does not exist",
  "The generated host cap routine of every phase, the routines that list the parts, variables and schemes of a suite, and the static API of "
  "ccpp_prebuild compare the suite name (suite part, group name) they are given with the known names. Where it equals a name exactly the "
  "routine of that suite, part or group and of that phase is called (or the answer for that suite is given); where it equals none, the error code, which is "
  "cleared on entry, is set to a nonzero value with a message and nothing is called. The parts a suite lists are the parts, under the names, that its run phase accepts.",
  ["inputs", "configurations"], "every number of suites, parts and groups and every phase",
  "Tests call known names in a few suites; the answer to an unknown name and the arms of other suites are not executed.",
  ["scripts/host_cap.py", "scripts/ccpp_suite.py", "scripts/mkstatic.py"],
  [("capgen", "scripts/host_cap.py write_host_cap, suite_part_list; scripts/ccpp_suite.py API.write_*_sub, Suite.part_list"), ("prebuild", "scripts/mkstatic.py API.write")],
  TF + "; dependence of each arm on the thing it was compared with",
  "That an arm calls the right routine is decided by dependence: the name called must be made from the loop variable the compared name is made from. "
  "Arguments of the calls are C01-C07.")

P("C31", "Inquiry routines list each variable, scheme and part of a suite exactly once",
  "ccpp_physics_suite_variables, whatever its optional arguments (input_vars, output_vars, struct_elements: absent, true or false), returns an array "
  "whose size is the number of variables asked for and which holds each of them exactly once: the inputs are the variables that some group of the suite "
  "takes with intent in (unless protected) or inout, the outputs those with intent out or inout, and a variable with elements is given by its elements or as a whole. "
  "This holds for any sets of variables, however they overlap. The part and scheme lists likewise hold each name once, in an array of that size.",
  ["inputs", "configurations"], "every way the sets of inputs, outputs and in/out variables and their elements can overlap, and all 27 choices of the optional arguments",
  "Tests compare the lists of four suites; most overlaps (a variable that is input of one group and output of another, elements used on their own) do not occur in them.",
  ["scripts/ccpp_suite.py"],
  [("lists", "scripts/ccpp_suite.py API.write_req_vars_sub, write_suite_schemes_sub, write_suite_part_list_sub, write_var_set_loop")],
  "abstract interpretation of the generating functions over the regions of unknown sets (Venn diagram masks, sizes and positions as linear forms over region sizes), and of the Fortran they write for each choice of options",
  "What is input and output is taken from the intents in the call lists of the groups. Code that leaves the set algebra the evaluator knows is counted as undecided in the evidence and not judged.")
