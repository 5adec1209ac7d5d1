From 874173b3e36ce1431bb69e9711bab97c762be22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 01/54] fix: move_modified_files: replace the files that
 differ, not the ones that are equal

---
 scripts/file_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index 669922b..cce8fb0 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -289,7 +289,8 @@ def move_modified_files(src_dir, dest_dir, overwrite=False, remove_src=False):
                 if overwrite:
                     fmove = True
                 else:
-                    fmove = filecmp.cmp(src_path, dest_path, shallow=False)
+                    fmove = not filecmp.cmp(src_path, dest_path,
+                                            shallow=False)
                 # end if
             else:
                 fmove = True
-- 
2.43.0


From 88fe1ce15298d360973d063f42e981a1c6661f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 02/54] fix: mkstatic: compare the contents of regenerated
 caps, not their os.stat signatures

---
 scripts/mkstatic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 618d3a8..8c90563 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -509,7 +509,7 @@ end module {module}
             f.close()
             # See comment above on updating the API or not
             if write_to_test_file:
-                if filecmp.cmp(self.filename, test_filename):
+                if filecmp.cmp(self.filename, test_filename, shallow=False):
                     # Files are equal, delete the test API and set update flag to False
                     os.remove(test_filename)
                     self.update_api = False
@@ -568,7 +568,7 @@ set(API \"{filename}\")
         f.close()
         # See comment above on updating the API or not
         if write_to_test_file:
-            if filecmp.cmp(source_filename, test_filename):
+            if filecmp.cmp(source_filename, test_filename, shallow=False):
                 # Files are equal, delete the test file
                 os.remove(test_filename)
             else:
@@ -918,7 +918,7 @@ end module {module}
             f.close()
             # See comment above on updating the suite cap or not
             if write_to_test_file:
-                if filecmp.cmp(self.filename, test_filename):
+                if filecmp.cmp(self.filename, test_filename, shallow=False):
                     # Files are equal, delete the test cap
                     # and set update flag to False
                     os.remove(test_filename)
@@ -1975,7 +1975,7 @@ end module {module}
             f.close()
             # See comment above on updating the group cap or not
             if write_to_test_file:
-                if filecmp.cmp(self.filename, test_filename):
+                if filecmp.cmp(self.filename, test_filename, shallow=False):
                     # Files are equal, delete the test cap
                     # and set update flag to False
                     os.remove(test_filename)
-- 
2.43.0


From 3f9f8fb2f7970fdf2f70a030d5cb490671e533d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 03/54] fix: ccpp_prebuild: regenerate the cmake and source
 snippets when they are missing or stale

---
 scripts/ccpp_prebuild.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index b8829b6..d493fd4 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -573,6 +573,13 @@ def generate_static_api(suites, static_api_dir, namespace):
     os.chdir(BASEDIR)
     return (success, api)
 
+def files_unchanged(file_pairs):
+    """Return True if, for each pair (existing file, newly generated file),
+    the existing file is present and has the contents of the new one."""
+    return all(os.path.isfile(existing) and
+               filecmp.cmp(existing, generated, shallow=False)
+               for existing, generated in file_pairs)
+
 def generate_typedefs_makefile(metadata_define, typedefs_makefile, typedefs_cmakefile, typedefs_sourcefile):
     """Generate list of Fortran modules containing CCPP type/kind definitions,
        and create makefile/cmakefile snippets for host model build system"""
@@ -629,8 +636,9 @@ def generate_typedefs_makefile(metadata_define, typedefs_makefile, typedefs_cmak
     makefile.write(typedefs)
     cmakefile.write(typedefs)
     sourcefile.write(typedefs)
-    if os.path.isfile(typedefs_makefile) and \
-            filecmp.cmp(typedefs_makefile, makefile.filename):
+    if files_unchanged([(typedefs_makefile, makefile.filename),
+                        (typedefs_cmakefile, cmakefile.filename),
+                        (typedefs_sourcefile, sourcefile.filename)]):
         os.remove(makefile.filename)
         os.remove(cmakefile.filename)
         os.remove(sourcefile.filename)
@@ -666,8 +674,9 @@ def generate_schemes_makefile(schemes, schemes_makefile, schemes_cmakefile, sche
     makefile.write(schemes_with_abspath)
     cmakefile.write(schemes_with_abspath)
     sourcefile.write(schemes_with_abspath)
-    if os.path.isfile(schemes_makefile) and \
-            filecmp.cmp(schemes_makefile, makefile.filename):
+    if files_unchanged([(schemes_makefile, makefile.filename),
+                        (schemes_cmakefile, cmakefile.filename),
+                        (schemes_sourcefile, sourcefile.filename)]):
         os.remove(makefile.filename)
         os.remove(cmakefile.filename)
         os.remove(sourcefile.filename)
@@ -703,8 +712,9 @@ def generate_caps_makefile(caps, caps_makefile, caps_cmakefile, caps_sourcefile,
     makefile.write(caps_with_abspath)
     cmakefile.write(caps_with_abspath)
     sourcefile.write(caps_with_abspath)
-    if os.path.isfile(caps_makefile) and \
-            filecmp.cmp(caps_makefile, makefile.filename):
+    if files_unchanged([(caps_makefile, makefile.filename),
+                        (caps_cmakefile, cmakefile.filename),
+                        (caps_sourcefile, sourcefile.filename)]):
         os.remove(makefile.filename)
         os.remove(cmakefile.filename)
         os.remove(sourcefile.filename)
-- 
2.43.0


From 9cbd834154b5b40c3bd5b49c54a877f1a0d5bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 04/54] fix: process files found by a wildcard or a directory
 listing in sorted order

glob returns names in file system order, so the order in which schemes are
processed (and thus generated code and messages) differed between machines.
---
 scripts/ccpp_track_variables.py                            | 2 +-
 scripts/file_utils.py                                      | 4 ++--
 scripts/fortran_tools/offline_check_fortran_vs_metadata.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_track_variables.py b/scripts/ccpp_track_variables.py
index 64dfc51..199cfb6 100755
--- a/scripts/ccpp_track_variables.py
+++ b/scripts/ccpp_track_variables.py
@@ -69,7 +69,7 @@ def create_metadata_filename_dict(metapath):
        with that scheme"""
 
     metadata_dict = {}
-    scheme_filenames = glob.glob(os.path.join(metapath, "*.meta"), recursive=True)
+    scheme_filenames = sorted(glob.glob(os.path.join(metapath, "*.meta"), recursive=True))
     if not scheme_filenames:
         raise Exception(f'No files found in {metapath} with ".meta" extension')
 
diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index cce8fb0..dee383c 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -59,7 +59,7 @@ def add_unique_files(filepath, pdesc, master_list, logger):
     Return a list of errors found
     Wildcards in <filepath> are expanded"""
     errors = list()
-    for file in glob.glob(filepath):
+    for file in sorted(glob.glob(filepath)):
         errs = check_for_existing_file(file, pdesc)
         if errs:
             errors.extend(errs)
@@ -149,7 +149,7 @@ def _create_file_list_int(files, suffices, file_type, logger,
             errs = add_unique_files(filename, pdesc, master_list, logger)
             errors.extend(errs)
         elif suff == 'txt':
-            tfiles = glob.glob(filename)
+            tfiles = sorted(glob.glob(filename))
             if tfiles:
                 for file in tfiles:
                     if file in txt_files:
diff --git a/scripts/fortran_tools/offline_check_fortran_vs_metadata.py b/scripts/fortran_tools/offline_check_fortran_vs_metadata.py
index 94570ec..47742be 100755
--- a/scripts/fortran_tools/offline_check_fortran_vs_metadata.py
+++ b/scripts/fortran_tools/offline_check_fortran_vs_metadata.py
@@ -33,7 +33,7 @@ _DUMMY_RUN_ENV = CCPPFrameworkEnv(_LOGGER, ndict={'host_files':'',
 
 def find_files_to_compare(directory):
     metadata_files = []
-    for file in glob.glob(os.path.join(directory,'**','*.meta'), recursive=True):
+    for file in sorted(glob.glob(os.path.join(directory,'**','*.meta'), recursive=True)):
         metadata_files.append(file)
     # end for
     return metadata_files
-- 
2.43.0


From f5045237c71ccdc8db307da0b1a3ac237e7b514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 05/54] fix: ccpp_capgen: do not let set iteration order reach
 the generated files

The dimension variables added to a suite's call lists, the dependencies in
the datatable, DDT use statements and optional variables were visited in set
order, so argument lists and files changed with PYTHONHASHSEED.
---
 scripts/ccpp_datafile.py | 3 ++-
 scripts/ddt_library.py   | 2 +-
 scripts/metavar.py       | 2 +-
 scripts/suite_objects.py | 7 ++++---
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 6bb5e53..9b1b260 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -1178,7 +1178,8 @@ def generate_ccpp_datatable(run_env, host_model, api, scheme_headers,
             host_depends.add(dep_file)
         # end for
     # end for
-    _add_dependencies(datatable, scheme_depends, host_depends)
+    _add_dependencies(datatable, sorted(scheme_depends),
+                      sorted(host_depends))
     # Write tree
     datatable_tree = PrettyElementTree(datatable)
     datatable_tree.write(run_env.datatable_file)
diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 3542559..975f865 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -319,7 +319,7 @@ class DDTLibrary(dict):
         <variable_list>"""
         pad = max(pad, self.__max_mod_name_len)
         ddt_mods = self.ddt_modules(variable_list)
-        for ddt_mod in ddt_mods:
+        for ddt_mod in sorted(ddt_mods):
             dmod = ddt_mod[0]
             dtype = ddt_mod[1]
             slen = ' '*(pad - len(dmod))
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 35878bc..daa3356 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1727,7 +1727,7 @@ class VarDictionary(OrderedDict):
         err_ret = ''
         ctx = ''
         vdims = var.get_dim_stdnames(include_constants=False)
-        for dimname in vdims:
+        for dimname in sorted(vdims):
             if to_dict:
                 present = to_dict.find_variable(standard_name=dimname,
                                                 any_scope=False)
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 4fac98b..8633b14 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2431,7 +2431,8 @@ class Group(SuiteObject):
             # end for
             # Any optional arguments that are not requested by the host need to have
             # a local null pointer passed from the group to the scheme.
-            for ivar in inactive_var_set:
+            for ivar in sorted(inactive_var_set,
+                               key=lambda x: x.get_prop_value('local_name')):
                 name = ivar.get_prop_value('local_name')+'_ptr'
                 kind = ivar.get_prop_value('kind')
                 dims = ivar.get_dimensions()
@@ -2587,7 +2588,7 @@ class Group(SuiteObject):
             alloc_str = self.allocate_dim_str(dims, var.context)
             outfile.write(alloc_stmt.format(lname, alloc_str), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             var = subpart_optional_vars[lname][0]
             dims = var.get_dimensions()
             alloc_str = self.allocate_dim_str(dims, var.context)
@@ -2620,7 +2621,7 @@ class Group(SuiteObject):
         for lname in sorted(allocatable_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
         # Nullify local pointers
-- 
2.43.0


From c6914f84587c418b2f9abfce346a2d1f134f5e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 06/54] fix: ccpp_prebuild: do not let set or listing order
 reach the generated files

---
 scripts/ccpp_prebuild.py   | 4 ++--
 scripts/metadata_parser.py | 4 ++--
 scripts/mkstatic.py        | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index d493fd4..f10b0ff 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -167,7 +167,7 @@ def get_all_suites(suites_dir):
     success = False
     logging.info("No suites were given, compiling a list of all suites")
     sdfs = []
-    for f in os.listdir(suites_dir):
+    for f in sorted(os.listdir(suites_dir)):
         match = SUITE_DEFINITION_FILENAME_PATTERN.match(f)
         if match:
             logging.info('Adding suite definition file {}'.format(f))
@@ -431,7 +431,7 @@ def generate_list_of_schemes_and_dependencies_to_compile(schemes_in_files, depen
             [dependency for dependency_list in list(dependencies1.values()) for dependency in dependency_list] + \
             [dependency for dependency_list in list(dependencies2.values()) for dependency in dependency_list]
     # Remove duplicates
-    return (success, list(set(schemes_and_dependencies_to_compile)))
+    return (success, sorted(set(schemes_and_dependencies_to_compile)))
 
 def compare_metadata(metadata_define, metadata_request):
     """Compare the requested metadata to the defined one. For each requested entry, a
diff --git a/scripts/metadata_parser.py b/scripts/metadata_parser.py
index d1277eb..1875504 100755
--- a/scripts/metadata_parser.py
+++ b/scripts/metadata_parser.py
@@ -92,7 +92,7 @@ def merge_dictionaries(x, y):
                 z[key] = x[key] + y[key]
             # Physics set dictionaries containing lists of physics sets of type string for each key=standard_name
             elif type(x[key][0]) is str:
-                z[key] = list(set(x[key] + y[key]))
+                z[key] = sorted(set(x[key] + y[key]))
             else:
                 raise Exception("x[key][0] is of unsupported type", type(x[key][0]))
         elif key in x_keys:
@@ -413,7 +413,7 @@ def parse_variable_tables(filepath, filename):
                             (this_metadata, these_dependencies) = read_new_metadata(metadata_filename, module_name, table_name)
                             if these_dependencies:
                                 # Remove duplicates when combining lists
-                                dependencies[table_name] = list(set(dependencies[table_name] + these_dependencies))
+                                dependencies[table_name] = sorted(set(dependencies[table_name] + these_dependencies))
                             for var_name in this_metadata.keys():
                                 for var in this_metadata[var_name]:
                                     if var_name in CCPP_MANDATORY_VARIABLES.keys() and not CCPP_MANDATORY_VARIABLES[var_name].compatible(var):
diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 8c90563..49052e9 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -96,7 +96,7 @@ def extract_parents_and_indices_from_local_name(local_name):
         # Remove this innermost index group (...) from local_name
         local_name = local_name.replace(local_name[last_open:last_closed+1], '')
     # Remove duplicates from indices
-    indices = list(set(indices))
+    indices = list(dict.fromkeys(indices))
     # Derive parent of actual variable (now that all subsets have been processed)
     if '%' in local_name:
         parent = local_name[:local_name.find('%')]
@@ -758,8 +758,8 @@ end module {module}
             self._groups.append(Group(name=group_xml.get('name'), subcycles=subcycles, suite=self._name))
 
         # Remove duplicates from list of all subroutines an schemes
-        self._all_schemes_called = list(set(self._all_schemes_called))
-        self._all_subroutines_called = list(set(self._all_subroutines_called))
+        self._all_schemes_called = list(dict.fromkeys(self._all_schemes_called))
+        self._all_subroutines_called = list(dict.fromkeys(self._all_subroutines_called))
 
 
         return success
@@ -1914,7 +1914,7 @@ end module {module}
             sub_argument_list = create_argument_list_wrapped(self.arguments[ccpp_stage])
 
             # Remove duplicates from additional manual variable definitions
-            var_defs_manual = list(set(var_defs_manual))
+            var_defs_manual = list(dict.fromkeys(var_defs_manual))
 
             # Write cap - shorten certain ccpp_stages to stay under the 63 character limit for Fortran function names
             subroutine = self._suite + '_' + self._name + '_' + CCPP_STAGES[ccpp_stage] + '_cap'
-- 
2.43.0


From 1c1f9e58fd10db7e7979ab862c9defb821a1a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 07/54] fix: ccpp_capgen: compare dimensions and the optional
 attribute of Fortran and metadata

The Fortran dimension was compared with itself, so a wrong dimension was never
reported; a missing Fortran 'optional' was ignored for the first argument (index
0) and crashed for a variable with no Fortran counterpart (index -1); an unknown
dimension element died with an unbound variable instead of being logged.
---
 scripts/ccpp_capgen.py    | 7 ++++---
 scripts/metadata_table.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 9eac0ec..5c358e2 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -231,8 +231,9 @@ def dims_comp(mheader, mvar, fvar, title, logger, case_sensitive=False):
                 mdim = mdim.lower()
                 fdim = fdim.lower()
             # end if
-            # Naked colon is okay for Fortran side
-            comp = fdim in (':', fdim)
+            # Naked colon (or upper bound) is okay for Fortran side
+            comp = (fdim in (':', mdim)) or (fdim.endswith(':') and
+                                             mdim.startswith(fdim))
             if not comp:
                 errmsg = 'Error: dim {} mismatch ({} != {}) in {}/{}{}'
                 stdname = mvar.get_prop_value('standard_name')
@@ -320,7 +321,7 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
             # missing from fortran declaration.
             # first check: if metadata says the variable is optional, does the fortran match?
             mopt  = mvar.get_prop_value('optional')
-            if find and mopt:
+            if (fvar is not None) and mopt:
                 fopt = fvar.get_prop_value('optional')
                 if (not fopt):
                     errmsg = f'Missing "optional" attribute in fortran declaration for variable {mname}, ' \
diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 942f8d8..47d99b6 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -1110,7 +1110,7 @@ class MetadataSection(ParseSource):
                         errmsg += context_string(context)
                         if logger is not None:
                             errmsg = "ERROR: " + errmsg
-                            logger.error(errmsg.format(item, std, ctx))
+                            logger.error(errmsg)
                             dname = unique_standard_name()
                         else:
                             raise CCPPError(errmsg) from verr
-- 
2.43.0


From a84fed3cd9e005a8c8ee8a7e8e57a026af506f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 08/54] fix: ccpp_capgen: compare the variables that follow
 array references in the metadata

A metadata table that lists array references (which have no Fortran declaration)
was longer than its Fortran counterpart, so its last variables were skipped
without comparing their type, kind, intent or dimensions.
---
 scripts/ccpp_capgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 5c358e2..9b6cadc 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -338,7 +338,7 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
                     errors_found = add_error(errors_found, errmsg)
                 # end if
             # end if
-            if mind >= flen:
+            if (mind >= flen) and (errors_found or (fvar is None)):
                 if arrayref:
                     # Array reference, variable not in Fortran table
                     pass
-- 
2.43.0


From 2ef26f481305e95ff2104457f3befba22fc36610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 09/54] fix: ccpp_prebuild: return the failure flag of
 gather_variable_definitions in the shape callers unpack

---
 scripts/ccpp_prebuild.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index f10b0ff..d676fdf 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -311,12 +311,12 @@ def gather_variable_definitions(variable_definition_files, typedefs_new_metadata
             if len(metadata_define[key])>1:
                 logging.error("Multiple definitions of standard_name {0} in type/variable defintions".format(key))
                 success = False
-                return
+                return (success, metadata_define, dependencies_define)
             (success, local_name, converted_variables) = convert_local_name_from_new_metadata(
                              metadata_define, key, typedefs_new_metadata, converted_variables)
             if not success:
                 logging.error("An error occurred during the conversion of variable {0} from new to old metadata format".format(key))
-                return (success, metadata_define)
+                return (success, metadata_define, dependencies_define)
             # Update the local name of the variable, if necessary
             if not metadata_define[key][0].local_name == local_name:
                 logging.debug("Updating local name of variable {0} from {1} to {2}".format(key,
-- 
2.43.0


From 0111962387a40a7f198a64b3c8670b2284b725ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 10/54] fix: mkstatic: subscript the variable, not the formula,
 in unit conversions before a scheme call

---
 scripts/mkstatic.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 49052e9..63f6ab1 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1750,10 +1750,9 @@ end module {module}
                                 actions_in += f'        allocate({tmpvar.local_name}{dim_string_allocate})\n'
                             if var.actions['in']:
                                 # Add unit conversion before entering the subroutine
-                                actions_in += '        {t} = {c}{d}\n'.format(t=tmpvar.local_name,
-                                                                              c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, ''),
-                                                                                                         kind=kind_string),
-                                                                              d=dim_string)
+                                actions_in += '        {t} = {c}\n'.format(t=tmpvar.local_name,
+                                                                           c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, '')+dim_string,
+                                                                                                      kind=kind_string))
                                 # If the variable is conditionally allocated, assign pointer
                                 if not conditional == '.true.':
                                     actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
-- 
2.43.0


From ff7040876cbb69eea959ada691eddb3671c129d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 11/54] fix: mkstatic: associate and nullify the pointer of a
 converted conditional variable for every intent

---
 scripts/mkstatic.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 63f6ab1..8ec6b17 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1753,19 +1753,19 @@ end module {module}
                                 actions_in += '        {t} = {c}\n'.format(t=tmpvar.local_name,
                                                                            c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, '')+dim_string,
                                                                                                       kind=kind_string))
-                                # If the variable is conditionally allocated, assign pointer
-                                if not conditional == '.true.':
-                                    actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
-                                                                                   t=tmpvar.local_name, d=dim_string_allocate)
+                            # If the variable is conditionally allocated, assign pointer
+                            if not conditional == '.true.':
+                                actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
+                                                                               t=tmpvar.local_name, d=dim_string_allocate)
                             if var.actions['out']:
                                 # Add unit conversion after returning from the subroutine
                                 actions_out  += '        {v}{d} = {c}\n'.format(v=tmpvar.target.replace(dim_string_target_name, ''),
                                                                                 d=dim_string,
                                                                                 c=var.actions['out'].format(var=tmpvar.local_name,
                                                                                                             kind=kind_string))
-                                # If the variable is conditionally allocated, nullify pointer
-                                if not conditional == '.true.':
-                                    actions_out += '        nullify({p})\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p")
+                            # If the variable is conditionally allocated, nullify pointer
+                            if not conditional == '.true.':
+                                actions_out += '        nullify({p})\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p")
 
                             if tmpvar.rank:
                                 # Add deallocate statement if the variable has a rank > 0
-- 
2.43.0


From 1c1a8dffff6ef550e3c4a47676c25d2acdcc33b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 12/54] fix: ccpp_capgen: pass the local copy of a converted
 intent(out) argument to the scheme

---
 scripts/suite_objects.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 8633b14..d224f8e 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -112,7 +112,8 @@ class CallList(VarDictionary):
         <is_func_call> should be set to True to construct a call statement.
         If <is_func_call> is False, construct a subroutine dummy argument
         list.
-        <sub_lname_list> may be a list of local_name substitutions.
+        <sub_lname_list> may be a list of local_name substitutions, i.e.,
+            (standard_name, local_name) pairs.
         """
         arg_str = ""
         arg_sep = ""
@@ -144,11 +145,13 @@ class CallList(VarDictionary):
                     lname = dvar.get_prop_value('local_name')
                     # Optional variables in the caps are associated with 
                     # local pointers of <lname>_ptr
-                    if dvar.get_prop_value('optional'):
+                    is_ptr = dvar.get_prop_value('optional')
+                    if is_ptr:
                         lname = dummy+'_ptr'
                     # end if
                 else:
                     cldict = None
+                    is_ptr = False
                     aref = var.array_ref(local_name=dummy)
                     if aref is not None:
                         lname = aref.group(1)
@@ -160,8 +163,9 @@ class CallList(VarDictionary):
                 # Are there any variable transforms for this scheme?
                 # If so, change Var's local_name need to local dummy array containing
                 # transformed argument, var_trans_local.
-                if sub_lname_list:
-                    for (var_trans_local, var_lname, sname, rindices, lindices, compat_obj) in sub_lname_list:
+                # (A local pointer is associated with the transformed argument.)
+                if sub_lname_list and (not is_ptr):
+                    for (sname, var_trans_local) in sub_lname_list:
                         if (sname == stdname):
                             lname = var_trans_local
                         # end if
@@ -1747,10 +1751,13 @@ class Scheme(SuiteObject):
         #    or our module
         cldicts = [self.__group, self.__group.call_list]
         cldicts.extend(self.__group.suite_dicts())
+        # The scheme is called with the local copy of any transformed variable
+        sub_lnames = [(x[2], x[0]) for x in self.__reverse_transforms]
+        sub_lnames.extend([(x[1], x[2]) for x in self.__forward_transforms])
         my_args = self.call_list.call_string(cldicts=cldicts,
                                              is_func_call=True,
                                              subname=self.subroutine_name,
-                                             sub_lname_list = self.__reverse_transforms)
+                                             sub_lname_list=sub_lnames)
         #
         outfile.write('', indent)
         outfile.write('if ({} == 0) then'.format(errcode), indent)
-- 
2.43.0


From 3c00153ab6d9de899b5363c77caa02a022080f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 13/54] fix: ccpp_capgen: convert conditionally allocated
 variables only when active; parenthesise conditions

---
 scripts/suite_objects.py | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index d224f8e..74f9bca 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1485,7 +1485,7 @@ class Scheme(SuiteObject):
                 tmp_indent = indent
                 if conditional != '.true.':
                     tmp_indent = indent + 1
-                    outfile.write(f"if {conditional} then", indent)
+                    outfile.write(f"if ({conditional}) then", indent)
                 # end if
                 outfile.write(f"! Assign value of {local_name} to {internal_var_lname}", tmp_indent)
                 outfile.write(f"{internal_var_lname} = {local_name}", tmp_indent)
@@ -1561,7 +1561,7 @@ class Scheme(SuiteObject):
             tmp_indent = indent
             if conditional != '.true.':
                 tmp_indent = indent + 1
-                outfile.write(f"if {conditional} then", indent)
+                outfile.write(f"if ({conditional}) then", indent)
             # end if
             outfile.write(f"! Check size of array {local_name}", tmp_indent)
             outfile.write(f"if (size({local_name}{dim_string}) /= {array_size}) then", tmp_indent)
@@ -1581,7 +1581,7 @@ class Scheme(SuiteObject):
                 tmp_indent = indent
                 if conditional != '.true.':
                     tmp_indent = indent + 1
-                    outfile.write(f"if {conditional} then", indent)
+                    outfile.write(f"if ({conditional}) then", indent)
                 # end if
                 outfile.write(f"! Assign lower/upper bounds of {local_name} to {internal_var_lname}", tmp_indent)
                 outfile.write(f"{internal_var_lname} = {local_name}{lbound_string}", tmp_indent)
@@ -1601,7 +1601,7 @@ class Scheme(SuiteObject):
                 lname = var.get_prop_value('local_name')
             # end if
             lname_ptr = var_ptr.get_prop_value('local_name')
-            outfile.write(f"if {conditional} then", indent)
+            outfile.write(f"if ({conditional}) then", indent)
             outfile.write(f"{lname_ptr} => {lname}", indent+1)
             outfile.write(f"end if", indent)
         # end if
@@ -1618,7 +1618,7 @@ class Scheme(SuiteObject):
                     lname = var.get_prop_value('local_name')
                 # end if
                 lname_ptr = var_ptr.get_prop_value('local_name')
-                outfile.write(f"if {conditional} then", indent)
+                outfile.write(f"if ({conditional}) then", indent)
                 outfile.write(f"{lname} = {lname_ptr}", indent+1)
                 outfile.write(f"end if", indent)
             # end if
@@ -1712,8 +1712,21 @@ class Scheme(SuiteObject):
                                               local_trans_var.get_prop_value('local_name'),
                                               lindices, rindices, compat_obj])
         # end if
+    def optional_var_condition(self, standard_name, cldicts):
+        """Return the condition under which the optional variable with
+        <standard_name> is active, or None if it is always active"""
+        for (dict_var, var, _, _) in self.__optional_vars:
+            if dict_var and (var.get_prop_value('standard_name') == standard_name):
+                (conditional, _) = dict_var.conditional(cldicts)
+                if conditional != '.true.':
+                    return conditional
+                # end if
+            # end if
+        # end for
+        return None
+
     def write_var_transform(self, var, dummy, rindices, lindices, compat_obj,
-                            outfile, indent, forward):
+                            outfile, indent, forward, conditional=None):
         """Write variable transformation needed to call this Scheme in <outfile>.
         <var> is the variable that needs transformation before and after calling Scheme.
         <dummy> is the local variable needed for the transformation..
@@ -1721,6 +1734,7 @@ class Scheme(SuiteObject):
         <rindices> are the RHS indices of <var>   for reverse transforms (before Scheme).
         <lindices> are the LHS indices of <var>   for forward transforms (after  Scheme).
         <rindices> are the RHS indices of <dummy> for forward transforms (after  Scheme).
+        <conditional> is the condition under which <var> is active (None for always).
         """
         #
         # Write reverse (pre-Scheme) transform.
@@ -1741,7 +1755,13 @@ class Scheme(SuiteObject):
                                                 lvar_indices=rindices,
                                                 rvar_indices=lindices)
         # end if
-        outfile.write(stmt, indent)
+        if conditional:
+            outfile.write(f"if ({conditional}) then", indent)
+            outfile.write(stmt, indent+1)
+            outfile.write("end if", indent)
+        else:
+            outfile.write(stmt, indent)
+        # end if
 
     def write(self, outfile, errcode, errmsg, indent):
         # Unused arguments are for consistent write interface
@@ -1793,7 +1813,8 @@ class Scheme(SuiteObject):
             # Group's call_list.
             lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
             lvar_lname = lvar.get_prop_value('local_name')
-            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, False)
+            conditional = self.optional_var_condition(var_sname, cldicts)
+            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, False, conditional)
         # end for
         outfile.write('',indent+1)
         #
@@ -1841,7 +1862,8 @@ class Scheme(SuiteObject):
             # Group's call_list.
             lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
             lvar_lname = lvar.get_prop_value('local_name')
-            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, True)
+            conditional = self.optional_var_condition(var_sname, cldicts)
+            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, True, conditional)
         # end for
         outfile.write('', indent)
         outfile.write('end if', indent)
-- 
2.43.0


From 24f35bdf97d82c70a7de5ea007dff4d4c35e1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 14/54] fix: ccpp_prebuild: test every requested variable for
 compatibility with the provided one

---
 scripts/ccpp_prebuild.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index d676fdf..d1ed18e 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -457,14 +457,16 @@ def compare_metadata(metadata_define, metadata_request):
                             ' Multiple definitions in {0}'.format(provided_by)
             logging.error(error_message)
             continue
-        # Check that the variable properties are compatible between the model and the schemes;
-        # because we know that all variables in the metadata_request[var_name] list are compatible,
-        # it is sufficient to test the first entry against (the unique) metadata_define[var_name][0].
-        if not metadata_request[var_name][0].compatible(metadata_define[var_name][0]):
+        # Check that the variable properties are compatible between the model and the schemes.
+        # Each variable in the metadata_request[var_name] list must be tested: two variables that
+        # are compatible with a third one (of kind len=*) are not necessarily compatible themselves.
+        incompatible = [var for var in metadata_request[var_name]
+                        if not var.compatible(metadata_define[var_name][0])]
+        if incompatible:
             success = False
             error_message = '  incompatible entries in metadata for variable {0}:\n'.format(var_name) +\
                             '    provided:  {0}\n'.format(metadata_define[var_name][0].print_debug()) +\
-                            '    requested: {0}'.format(metadata_request[var_name][0].print_debug())
+                            '    requested: {0}'.format(incompatible[0].print_debug())
             logging.error(error_message)
             continue
         # Check for and register unit conversions if necessary. This must be done for each registered
-- 
2.43.0


From ed93c00cdf1129fef306a3458e7de79d6b5874c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 15/54] fix: ccpp_prebuild: abbreviate only the stage suffix
 when filtering metadata

---
 scripts/ccpp_prebuild.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index d1ed18e..e5b274e 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -380,9 +380,11 @@ def filter_metadata(metadata, arguments, dependencies, schemes_in_files, suites)
         for var in metadata[var_name][:]:
             container_string = decode_container(var.container)
             subroutine = container_string[container_string.find('SUBROUTINE')+len('SUBROUTINE')+1:]
-            # Replace the full CCPP stage name with the abbreviated version
+            # Replace the full CCPP stage name (at the end of the subroutine name) with the abbreviated version
             for ccpp_stage in CCPP_STAGES.keys():
-                subroutine = subroutine.replace(ccpp_stage, CCPP_STAGES[ccpp_stage])
+                if subroutine.endswith('_' + ccpp_stage):
+                    subroutine = subroutine[:-len(ccpp_stage)] + CCPP_STAGES[ccpp_stage]
+                    break
             for suite in suites:
                 if subroutine in suite.all_subroutines_called:
                     keep = True
-- 
2.43.0


From 741423e5acef2f91db2d93c2892f62260ec92b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 16/54] fix: ccpp_prebuild: accept suite-level init and
 finalize schemes, keep the arguments of the latter

---
 scripts/mkstatic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 8ec6b17..2e4bc97 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -724,11 +724,10 @@ end module {module}
         for group_xml in suite_xml:
             subcycles = []
 
-            self._call_tree[group_xml.attrib['name']] = []
             # Add suite-wide init scheme to group 'init', similar for finalize
             if group_xml.tag.lower() == 'init' or group_xml.tag.lower() == 'finalize':
                 self._all_schemes_called.append(group_xml.text)
-                self._all_subroutines_called.append(group_xml.text + '_' + group_xml.tag.lower())
+                self._all_subroutines_called.append(group_xml.text + '_' + CCPP_STAGES[group_xml.tag.lower()])
                 schemes = [group_xml.text]
                 subcycles.append(Subcycle(loop=1, schemes=schemes))
                 if group_xml.tag.lower() == 'init':
@@ -737,6 +736,7 @@ end module {module}
                     self._groups.append(Group(name=group_xml.tag.lower(), subcycles=subcycles, suite=self._name, finalize=True))
                 continue
 
+            self._call_tree[group_xml.attrib['name']] = []
             # Parse subcycles of all regular groups
             for subcycle_xml in group_xml:
                 schemes = []
-- 
2.43.0


From 7ba11cf7985529601282bd4a3fc1a748e21ab312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 17/54] fix: reject scheme variables incompatible with their
 source

A scheme argument whose type or kind disagrees with the variable it is
matched with was accepted and passed on.
---
 scripts/suite_objects.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 74f9bca..2df5d05 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -951,6 +951,16 @@ class SuiteObject(VarDictionary):
         if dict_var is not None:
             dict_var = self.parent.find_variable(source_var=var, any_scope=True)
             compat_obj = var.compatible(dict_var, run_env)
+            # Dimensions have been matched above, any other mismatch is an error
+            if ((not compat_obj.compat) and
+                (compat_obj.incompat_reason != 'dimensions')):
+                errmsg = "Variable {}{} is not compatible with {}{}: {}"
+                raise CCPPError(errmsg.format(var.get_prop_value('local_name'),
+                                              context_string(var.context),
+                                              dict_var.get_prop_value('local_name'),
+                                              context_string(dict_var.context),
+                                              compat_obj.incompat_reason))
+            # end if
         # end if
         return found_var, dict_var, var_vdim, new_vdims, missing_vert, compat_obj
 
-- 
2.43.0


From abf098edcf2752ec3130e1358b77469d16c39749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 18/54] fix: compare character lengths, not only their presence

---
 scripts/var_props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index fcbed74..7a3101d 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -1345,7 +1345,7 @@ class VarCompatObj:
             kentries = [x.strip() for x in kind_str.split(',') if x.strip()]
             if len(kentries) == 1:
                 if kentries[0][0:4].lower() == 'len=':
-                    kind_ok = True
+                    kind_ok = 'len=' + kentries[0][4:].strip().lower()
                 # end if (no else, kind_ok already False)
             # end if (no else, kind_ok already False)
         # end if (no else, kind_ok already False)
-- 
2.43.0


From 7afb79c2383c53762e60e499a9aad34e7ca4ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 19/54] fix: variables with different vertical orientation are
 not equivalent

---
 scripts/var_props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index 7a3101d..83fa06e 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -979,7 +979,7 @@ class VarCompatObj:
         if self.__compat:
             # Check for vertical array flipping (do later)
             if var1_top != var2_top:
-                self.__compat            = True
+                self.__equiv             = False
                 self.has_vert_transforms = True
             # end if
         # end if
-- 
2.43.0


From 48336a93c4e44b60fbc98933cae275a865288243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 20/54] fix: call-list compatibility check unpacked a
 VarCompatObj

SuiteObject.add_call_list_variable raised TypeError whenever the variable
was already known to a parent without an own call list.
---
 scripts/suite_objects.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 2df5d05..365e906 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -484,19 +484,16 @@ class SuiteObject(VarDictionary):
         elif pvar:
             # Check for call list incompatibility
             if pvar is not None:
-                compat, reason = pvar.compatible(newvar, self.run_env)
-                if not compat:
+                compat = pvar.compatible(newvar, self.run_env)
+                if not compat.compat:
                     emsg = 'Attempt to add incompatible variable to call list:'
                     emsg += '\n{} from {} is not compatible with {} from {}'
-                    nlreason = newvar.get_prop_value(reason)
-                    plreason = pvar.get_prop_value(reason)
-                    emsg += '\nreason = {} ({} != {})'.format(reason,
-                                                              nlreason,
-                                                              plreason)
+                    emsg += '\nreason = {}'
                     nlname = newvar.get_prop_value('local_name')
                     plname = pvar.get_prop_value('local_name')
                     raise CCPPError(emsg.format(nlname, newvar.source.name,
-                                                plname, pvar.source.name))
+                                                plname, pvar.source.name,
+                                                compat.incompat_reason))
                 # end if
             # end if (no else, variable already in call list)
         else:
-- 
2.43.0


From 8f4f39f69d4e887793a1d8a540aee1dbb39c1d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 21/54] fix: report calls before initialization through the
 return value of prebuild group caps

---
 scripts/mkstatic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 2e4bc97..3146b56 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1009,6 +1009,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_init called before {name}_init'
         {target_name_flag} = 1
+        ierr = 1
         return
       end if
 ''',
@@ -1016,6 +1017,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_run called before {name}_init'
         {target_name_flag} = 1
+        ierr = 1
         return
       end if
 ''',
@@ -1023,6 +1025,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_finalize called before {name}_init'
         {target_name_flag} = 1
+        ierr = 1
         return
       end if
 ''',
-- 
2.43.0


From 0c28a29a5e67a55b70c49dcd7b35988be57c7b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:16 +0000
Subject: [PATCH 22/54] fix: finalizing one prebuild CCPP instance leaves the
 other instances initialized

---
 scripts/mkstatic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 3146b56..a3f843b 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1042,7 +1042,7 @@ end module {module}
         'run' : '',
         'timestep_finalize' : '',
         'finalize' : '''
-      initialized = .false.
+      initialized({ccpp_var_name}%ccpp_instance) = .false.
 ''',
     }
 
@@ -1905,7 +1905,8 @@ end module {module}
             #we still need to add the host-supplied ccpp_t variable to the init group caps so that it is
             #available for setting the initialized flag for the particular instance being called. Otherwise,
             #the initialized_set_block for the init phase tries to reference the unavailable ccpp_t variable.
-            if (ccpp_stage == 'init' and not self.parents[ccpp_stage]):
+            #Likewise for the finalize stage and resetting the initialized flag.
+            if (ccpp_stage in ('init', 'finalize') and not self.parents[ccpp_stage]):
                 ccpp_var.intent = 'in'
                 self.parents[ccpp_stage].update({ccpp_var.standard_name:ccpp_var})
 
-- 
2.43.0


From bd4675da117b11561e65cc212f8c5662410db93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:28 +0000
Subject: [PATCH 23/54] fix: remove the static API cmake file in ccpp_prebuild
 --clean

---
 scripts/ccpp_prebuild.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index e5b274e..a242949 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -156,6 +156,7 @@ def clean_files(config, namespace):
         os.path.join(config['caps_dir'], 'ccpp_*_cap.F90'),
         os.path.join(config['static_api_dir'], static_api_file),
         config['static_api_sourcefile'],
+        config['static_api_cmakefile'],
         ]
     # Not very pythonic, but the easiest way w/o importing another Python module
     cmd = 'rm -vf {0}'.format(' '.join(files_to_remove))
-- 
2.43.0


From f7cac54ed3ba734458307b1afa330b2f7859545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:28 +0000
Subject: [PATCH 24/54] fix: make ccpp_capgen --clean remove the files listed
 in the datatable

---
 scripts/ccpp_capgen.py | 48 +++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 9b6cadc..73fdf01 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -17,6 +17,7 @@ import re
 # CCPP framework imports
 from ccpp_database_obj import CCPPDatabaseObj
 from ccpp_datafile import generate_ccpp_datatable
+from ccpp_datafile import datatable_report, DatatableReport
 from ccpp_suite import API
 from file_utils import check_for_writeable_file, remove_dir, replace_paths
 from file_utils import create_file_list, move_modified_files
@@ -54,30 +55,33 @@ _CCPP_FRAMEWORK_DDT_TYPES = ["ccpp_hash_table_t",
 ###############################################################################
 def delete_pathnames_from_file(capfile, logger):
 ###############################################################################
-    """Remove all the filenames found in <capfile>, then delete <capfile>"""
+    """Remove all the generated files listed in the datatable, <capfile>,
+    then delete <capfile>"""
     root_path = os.path.dirname(os.path.abspath(capfile))
     success = True
-    with open(capfile, 'r') as infile:
-        for line in infile.readlines():
-            path = line.strip()
-            # Skip blank lines and lines which appear to start with a comment.
-            if path and (path[0] != '#') and (path[0] != '!'):
-                # Check for an absolute path
-                if not os.path.isabs(path):
-                    # Assume relative pathnames are relative to pathsfile
-                    path = os.path.normpath(os.path.join(root_path, path))
-                # end if
-                logger.info("Clean: Removing {}".format(path))
-                try:
-                    os.remove(path)
-                except OSError as oserr:
-                    success = False
-                    errmsg = 'Unable to remove {}\n{}'
-                    logger.warning(errmsg.format(path, oserr))
-                # end try
-            # end if (else skip blank or comment line)
-        # end for
-    # end with open
+    paths = list()
+    for report in ["host_files", "suite_files", "utility_files"]:
+        files = datatable_report(capfile, DatatableReport(report), '\n')
+        # The utility files include framework sources, do not remove those
+        paths.extend([x for x in files.split('\n')
+                      if x and ((report != "utility_files") or
+                                (os.path.basename(x) == KINDS_FILENAME))])
+    # end for
+    for path in paths:
+        # Check for an absolute path
+        if not os.path.isabs(path):
+            # Assume relative pathnames are relative to pathsfile
+            path = os.path.normpath(os.path.join(root_path, path))
+        # end if
+        logger.info("Clean: Removing {}".format(path))
+        try:
+            os.remove(path)
+        except OSError as oserr:
+            success = False
+            errmsg = 'Unable to remove {}\n{}'
+            logger.warning(errmsg.format(path, oserr))
+        # end try
+    # end for
     logger.info("Clean: Removing {}".format(capfile))
     try:
         os.remove(capfile)
-- 
2.43.0


From cdd04dbe8e0b8b1da88183ef71544cf122a41c32 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 25/54] fix: hash table key_hash: define errmsg before
 appending to it

---
 src/ccpp_hash_table.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ccpp_hash_table.F90 b/src/ccpp_hash_table.F90
index 147ca5f..94072d1 100644
--- a/src/ccpp_hash_table.F90
+++ b/src/ccpp_hash_table.F90
@@ -184,6 +184,7 @@ CONTAINS
       integer :: ind_fact
       integer :: hash_fact
 
+      call clear_optstring(errmsg)
       hash = this%key_offset
       ind_fact = 0
       do index = 1, len_trim(string)
-- 
2.43.0


From 4e267f93cbd4179c94561173ad891b11d08d092e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 26/54] fix: initialize the error variables before appending to
 them in ccpp_constituent_prop_mod

---
 src/ccpp_constituent_prop_mod.F90 | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 1601957..b232d68 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1161,6 +1161,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccp_model_const_okay_to_add'
 
+      call initialize_errvars(errcode, errmsg)
       ccp_model_const_okay_to_add = this%hash_table%is_initialized()
       if (ccp_model_const_okay_to_add) then
          ccp_model_const_okay_to_add = .not. (this%const_props_locked(errcode=errcode,     &
@@ -1287,6 +1288,7 @@ CONTAINS
       character(len=errmsg_len)       :: error
       character(len=*), parameter     :: subname = 'ccp_model_const_find_const'
 
+      call initialize_errvars(errcode, errmsg)
       nullify(cprop)
 
       hval => this%hash_table%table_value(standard_name, errmsg=error)
@@ -1954,6 +1956,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_get_standard_name'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%standard_name(std_name, errcode, errmsg)
       else
@@ -1977,6 +1980,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_get_long_name'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%long_name(long_name, errcode, errmsg)
       else
@@ -2000,6 +2004,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_get_units'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%units(units, errcode, errmsg)
       else
@@ -2023,6 +2028,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_get_vertical_dimension'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          if (this%prop%is_instantiated(errcode, errmsg)) then
             call this%prop%vertical_dimension(vert_dim, errcode, errmsg)
@@ -2108,6 +2114,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_const_index'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          index = this%prop%const_index(errcode, errmsg)
       else
@@ -2130,6 +2137,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_is_thermo_active'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%is_thermo_active(val_out, errcode, errmsg)
       else
@@ -2152,6 +2160,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_is_water_species'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%is_water_species(val_out, errcode, errmsg)
       else
@@ -2174,6 +2183,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_is_advected'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%is_advected(val_out, errcode, errmsg)
       else
@@ -2196,6 +2206,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_is_mass_mixing_ratio'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%is_mass_mixing_ratio(val_out, errcode, errmsg)
       else
@@ -2218,6 +2229,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_is_volume_mixing_ratio'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%is_volume_mixing_ratio(val_out, errcode, errmsg)
       else
@@ -2240,6 +2252,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_is_number_concentration'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%is_number_concentration(val_out, errcode, errmsg)
       else
@@ -2262,6 +2275,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_is_dry'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%is_dry(val_out, errcode, errmsg)
       else
@@ -2284,6 +2298,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_is_moist'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%is_moist(val_out, errcode, errmsg)
       else
@@ -2306,6 +2321,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_is_wet'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%is_wet(val_out, errcode, errmsg)
       else
@@ -2328,6 +2344,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_min_val'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%minimum(val_out, errcode, errmsg)
       else
@@ -2354,6 +2371,7 @@ CONTAINS
       character(len=*), parameter :: subname = 'ccpt_set_min_val'
 
       !Set minimum value for this constituent:
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%set_minimum(min_value, errcode, errmsg)
       else
@@ -2375,6 +2393,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_molar_mass'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%molar_mass(val_out, errcode, errmsg)
       else
@@ -2397,6 +2416,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_set_molar_mass'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%set_molar_mass(molar_mass, errcode, errmsg)
       else
@@ -2418,6 +2438,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_default_value'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%default_value(val_out, errcode, errmsg)
       else
@@ -2440,6 +2461,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_has_default'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          call this%prop%has_default(val_out, errcode, errmsg)
       else
@@ -2512,6 +2534,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_set_const_index'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          if (this%prop%is_instantiated(errcode, errmsg)) then
             if (this%prop%const_ind == int_unassigned) then
@@ -2544,6 +2567,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_set_thermo_active'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          if (this%prop%is_instantiated(errcode, errmsg)) then
             this%prop%thermo_active = thermo_flag
@@ -2570,6 +2594,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccpt_set_water_species'
 
+      call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
          if (this%prop%is_instantiated(errcode, errmsg)) then
             this%prop%water_species = water_flag
-- 
2.43.0


From 6f87e4b84b0054d35d48d662c3fd5ff21233da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 27/54] fix: constituent comparison keeps the first object's
 error; vertical dimension is always returned

---
 src/ccpp_constituent_prop_mod.F90 | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index b232d68..1b22eff 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -759,8 +759,11 @@ CONTAINS
       integer,          optional,           intent(out) :: errcode
       character(len=*), optional,           intent(out) :: errmsg
 
-      if (this%is_instantiated(errcode, errmsg) .and.                         &
-           oconst%is_instantiated(errcode, errmsg)) then
+      equiv = this%is_instantiated(errcode, errmsg)
+      if (equiv) then
+         equiv = oconst%is_instantiated(errcode, errmsg)
+      end if
+      if (equiv) then
          equiv = (trim(this%var_std_name) == trim(oconst%var_std_name)) .and. &
               (trim(this%var_long_name) == trim(oconst%var_long_name))  .and. &
               (trim(this%vert_dim) == trim(oconst%vert_dim))            .and. &
@@ -772,8 +775,6 @@ CONTAINS
               (this%thermo_active .eqv. oconst%thermo_active)           .and. &
               (this%const_water == oconst%const_water)                  .and. &
               (this%water_species .eqv. oconst%water_species)
-      else
-         equiv = .false.
       end if
 
    end subroutine ccp_is_equivalent
@@ -2030,9 +2031,7 @@ CONTAINS
 
       call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
-         if (this%prop%is_instantiated(errcode, errmsg)) then
-            call this%prop%vertical_dimension(vert_dim, errcode, errmsg)
-         end if
+         call this%prop%vertical_dimension(vert_dim, errcode, errmsg)
       else
          vert_dim = ''
          call append_errvars(1, ": invalid constituent pointer",        &
-- 
2.43.0


From 99b52ab5d80a3e0d79bddc08ee33eb9817be39f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 28/54] fix: constituent metadata: do not reference an optional
 errcode that is not present

---
 src/ccpp_constituent_prop_mod.F90 | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 1b22eff..5832b53 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1196,6 +1196,7 @@ CONTAINS
       character(len=*), parameter                  :: subname = 'ccp_model_const_add_metadata'
       type(ccpp_constituent_properties_t), pointer :: cprop => NULL()
       character(len=stdname_len)                   :: standard_name
+      integer                                      :: astat
       logical                                      :: match
 
       if (this%okay_to_add(errcode=errcode, errmsg=errmsg,                    &
@@ -1227,15 +1228,12 @@ CONTAINS
             if (field_data%is_layer_var()) then
                this%num_layer_vars = this%num_layer_vars + 1
             else
-               if (present(errmsg)) then
-                  call field_data%vertical_dimension(error,                   &
+               call field_data%vertical_dimension(error, errcode=astat)
+               if (astat /= 0) then
+                  call append_errvars(1,                                      &
+                       "ERROR: Unknown vertical dimension, '" //              &
+                       trim(error) // "'", subname,                           &
                        errcode=errcode, errmsg=errmsg)
-                  if (errcode /= 0) then
-                     call append_errvars(1,                                   &
-                          "ERROR: Unknown vertical dimension, '" //           &
-                          trim(error) // "'", subname,                        &
-                          errcode=errcode, errmsg=errmsg)
-                  end if
                end if
             end if
          end if
@@ -2485,16 +2483,16 @@ CONTAINS
       ! Local variables
       character(len=stdname_len) :: stdname
       character(len=errmsg_len)  :: errmsg2
+      integer                    :: errcode2
       character(len=*), parameter :: subname = 'ccpt_set'
 
       call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
-         call this%standard_name(stdname, errcode=errcode, errmsg=errmsg2)
-         if (errcode == 0) then
+         call this%standard_name(stdname, errcode=errcode2, errmsg=errmsg2)
+         if (errcode2 == 0) then
             write(errmsg2, *) "Pointer already allocated as '",               &
                  trim(stdname), "'"
          end if
-         errcode = errcode + 1
          call append_errvars(1, trim(errmsg2), subname, errcode=errcode,      &
               errmsg=errmsg)
       else
-- 
2.43.0


From 95f686a24d93167bb8da995c9b17bb5ad1ea7125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 29/54] fix: locking the constituent table or data keeps the
 errors of earlier constituents

---
 src/ccpp_constituent_prop_mod.F90 | 56 ++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 5832b53..37fdf02 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1326,6 +1326,7 @@ CONTAINS
       class(ccpp_hashable_t),              pointer :: hval
       type(ccpp_constituent_properties_t), pointer :: cprop
       character(len=dimname_len)                   :: dimname
+      character(len=errmsg_len)                    :: error
       character(len=*), parameter :: subname = 'ccp_model_const_table_lock'
 
       astat = 0
@@ -1344,6 +1345,7 @@ CONTAINS
          allocate(this%const_metadata(num_vars), stat=astat)
          call handle_allocate_error(astat, 'const_metadata',                  &
               subname, errcode=errcode, errmsg=errmsg)
+         errcode_local = astat
          ! We want to pack the advected constituents at the beginning of
          !   the field array so we need to know how many there are
          if (astat == 0) then
@@ -1396,7 +1398,13 @@ CONTAINS
                            exit
                         end if
                         call cprop%set_const_index(index_advect,              &
-                             errcode=errcode, errmsg=errmsg)
+                             errcode=astat, errmsg=error)
+                        if (astat /= 0) then
+                           call append_errvars(astat, trim(error), subname,   &
+                                errcode=errcode, errmsg=errmsg)
+                           errcode_local = errcode_local + 1
+                           exit
+                        end if
                         call this%const_metadata(index_advect)%set(cprop)
                      else
                         index_const = index_const + 1
@@ -1408,14 +1416,19 @@ CONTAINS
                            errcode_local = errcode_local + 1
                            exit
                         end if
-                        call cprop%set_const_index(index_const,               &
-                             errcode=errcode, errmsg=errmsg)
+                        call cprop%set_const_index(index_const,              &
+                             errcode=astat, errmsg=error)
+                        if (astat /= 0) then
+                           call append_errvars(astat, trim(error), subname,   &
+                                errcode=errcode, errmsg=errmsg)
+                           errcode_local = errcode_local + 1
+                           exit
+                        end if
                         call this%const_metadata(index_const)%set(cprop)
                      end if
                      ! Make sure this is a layer variable
                      if (.not. cprop%is_layer_var()) then
-                        call cprop%vertical_dimension(dimname,                &
-                             errcode=errcode, errmsg=errmsg)
+                        call cprop%vertical_dimension(dimname)
                         call append_errvars(1, "ERROR: Bad vertical dimension, '" // &
                              trim(dimname), subname, errcode=errcode, errmsg=errmsg)
                         errcode_local = errcode_local + 1
@@ -1447,11 +1460,6 @@ CONTAINS
                     errcode=errcode, errmsg=errmsg)
                errcode_local = errcode_local + 1
             end if
-            if (present(errcode)) then
-               if (errcode /= 0) then
-                  errcode_local = 1
-               end if
-            end if
             if (errcode_local == 0) then
                this%table_locked = .true.
             end if
@@ -1475,6 +1483,7 @@ CONTAINS
       integer                                         :: astat, index, errcode_local
       real(kind=kind_phys)                            :: default_value
       real(kind=kind_phys)                            :: minvalue
+      character(len=errmsg_len)                       :: error
       character(len=*), parameter :: subname = 'ccp_model_const_data_lock'
 
       errcode_local = 0
@@ -1508,27 +1517,34 @@ CONTAINS
                  subname, errcode=errcode, errmsg=errmsg)
             errcode_local = astat
          end if
-         ! Initialize tendencies to 0
-         this%vars_layer_tend(:,:,:) = 0._kind_phys
          if (errcode_local == 0) then
+            ! Initialize tendencies to 0
+            this%vars_layer_tend(:,:,:) = 0._kind_phys
             this%num_layers = num_layers
             do index = 1, this%hash_table%num_values()
                !Set all constituents to their default values:
                call this%const_metadata(index)%default_value(default_value, &
-                               errcode, errmsg)
+                               astat, error)
+               if (astat /= 0) then
+                  call append_errvars(astat, trim(error), subname,            &
+                       errcode=errcode, errmsg=errmsg)
+                  errcode_local = errcode_local + 1
+                  exit
+               end if
                this%vars_layer(:,:,index) = default_value
 
                ! Also set the minimum allowed value array
-               call this%const_metadata(index)%minimum(minvalue, errcode,   &
-                               errmsg)
+               call this%const_metadata(index)%minimum(minvalue, astat,     &
+                               error)
+               if (astat /= 0) then
+                  call append_errvars(astat, trim(error), subname,            &
+                       errcode=errcode, errmsg=errmsg)
+                  errcode_local = errcode_local + 1
+                  exit
+               end if
                this%vars_minvalue(index) = minvalue
             end do
          end if
-         if (present(errcode)) then
-            if (errcode /= 0) then
-               errcode_local = 1
-            end if
-         end if
          if (errcode_local == 0) then
             this%data_locked = .true.
          end if
-- 
2.43.0


From 23127c24b8fc40f807d50d7316cb440382b9f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:21 +0000
Subject: [PATCH 30/54] fix: locking an uninitialized constituent table reports
 the error

---
 src/ccpp_constituent_prop_mod.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 37fdf02..a502ab5 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1336,6 +1336,9 @@ CONTAINS
               "WARNING: Model constituents properties already locked, ignoring", &
               subname, errcode=errcode, errmsg=errmsg)
          errcode_local = 1
+      else if (.not. this%hash_table%is_initialized()) then
+         ! Error recorded by const_props_locked
+         errcode_local = 1
       else
          ! Make sure everything is really initialized
          call this%reset(clear_hash_table=.false.)
-- 
2.43.0


From 049e53638abf3ea0a1d903cc311241d5f25dc303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:43 +0000
Subject: [PATCH 31/54] fix: deallocating constituent properties resets all of
 them

---
 src/ccpp_constituent_prop_mod.F90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index a502ab5..4b76a95 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -479,13 +479,20 @@ CONTAINS
       if (allocated(this%var_long_name)) then
          deallocate(this%var_long_name)
       end if
+      if (allocated(this%var_units)) then
+         deallocate(this%var_units)
+      end if
       if (allocated(this%vert_dim)) then
          deallocate(this%vert_dim)
       end if
       this%const_ind = int_unassigned
       this%advected = .false.
+      this%thermo_active = .false.
+      this%water_species = .false.
       this%const_type = int_unassigned
       this%const_water = int_unassigned
+      this%min_val = 0.0_kind_phys
+      this%molar_mass_val = kphys_unassigned
       this%const_default_value = kphys_unassigned
 
    end subroutine ccp_deallocate
-- 
2.43.0


From f617b290d98c94c38ca0abe30d3af7988b33aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:04 +0000
Subject: [PATCH 32/54] fix: resetting the model constituents unlocks them

---
 src/ccpp_constituent_prop_mod.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 4b76a95..d453d77 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1597,6 +1597,9 @@ CONTAINS
          end if
          deallocate(this%const_metadata)
       end if
+      ! The arrays are gone so nothing is locked
+      this%table_locked = .false.
+      this%data_locked = .false.
       if (clear_table) then
          this%num_layer_vars = 0
          this%num_advected_vars = 0
-- 
2.43.0


From 1674dfee283cf69da83d9e7d99e946ab2ad508db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:39 +0000
Subject: [PATCH 33/54] fix: initializing a hash table iterator on an empty
 table ends

---
 src/ccpp_hash_table.F90 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ccpp_hash_table.F90 b/src/ccpp_hash_table.F90
index 94072d1..820ff68 100644
--- a/src/ccpp_hash_table.F90
+++ b/src/ccpp_hash_table.F90
@@ -404,10 +404,12 @@ CONTAINS
       nullify(this%table_entry)
       do
          this%index = this%index + 1
-         if (associated(hash_table%table(this%index)%entry_value)) then
-            exit
-         else if (this%index > hash_table%table_size) then
+         if (this%index > hash_table%table_size) then
+            ! There are no (more) entries, this is an invalid iterator
             this%index = 0
+            exit
+         else if (associated(hash_table%table(this%index)%entry_value)) then
+            exit
          end if
       end do
    end subroutine hash_iterator_initialize
-- 
2.43.0


From f99e98fbe152ec560cb495fa34a5c5ba433afd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:39 +0000
Subject: [PATCH 34/54] fix: adding a key twice to the hash table is never
 silent

---
 src/ccpp_hash_table.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ccpp_hash_table.F90 b/src/ccpp_hash_table.F90
index 820ff68..1254444 100644
--- a/src/ccpp_hash_table.F90
+++ b/src/ccpp_hash_table.F90
@@ -305,6 +305,10 @@ CONTAINS
          if (present(errmsg)) then
             write(errmsg, *) subname, " ERROR: key, '", newkey,               &
                  "' already in table"
+         else
+            write(6, *) subname, " ERROR: key, '", newkey,                    &
+                 "' already in table"
+            STOP 1
          end if
       else
          if (associated(this%table(hash_ind)%entry_value)) then
-- 
2.43.0


From 11c5f6dfe5c23abbd6f510ed3ef0da99b537bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:49 +0000
Subject: [PATCH 35/54] fix: constituent routines return as soon as their
 checks fail

---
 scripts/constituents.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index a8c1114..019090e 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -215,6 +215,7 @@ class ConstituentVarDict(VarDictionary):
             stmt = f'{errmsg} = "constituent properties not '
             stmt += f'initialized for suite, {suite_name}"'
             outfile.write(stmt, indent+2)
+            outfile.write("return", indent+2)
             outfile.write("end if", indent+1)
         # end if (no else until an alternative error mechanism supported)
 
@@ -231,18 +232,21 @@ class ConstituentVarDict(VarDictionary):
                 stmt = f"write({errmsg}, '(a,i0,a)') 'ERROR: index (',index,') "
                 stmt += "too small, must be >= 1'"
                 outfile.write(stmt, indent+2)
+                outfile.write("return", indent+2)
                 stmt = f"else if (index > SIZE({self.constituent_prop_array_name()})) then"
                 outfile.write(stmt, indent+1)
                 outfile.write(f"{errcode} = 1", indent+2)
                 stmt = f"write({errmsg}, '(2(a,i0))') 'ERROR: index (',index,') "
                 stmt += f"too large, must be <= ', SIZE({self.constituent_prop_array_name()})"
                 outfile.write(stmt, indent+2)
+                outfile.write("return", indent+2)
                 outfile.write("end if", indent+1)
             else:
                 outfile.write(f"{errcode} = 1", indent+1)
                 stmt = f"write({errmsg}, '(a,i0,a)') 'ERROR: {self.name}, "
                 stmt += "has no constituents'"
                 outfile.write(stmt, indent+1)
+                outfile.write("return", indent+1)
             # end if
         else:
             raise ParseInternalError("Alternative to errcode not implemented")
-- 
2.43.0


From 3d63156d4ed14f6d782b3637b62067a87999ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:01 +0000
Subject: [PATCH 36/54] fix: list every required variable once for any choice
 of options

---
 scripts/ccpp_suite.py | 201 +++++++++++-------------------------------
 1 file changed, 53 insertions(+), 148 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index d2634c8..2d07110 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -813,6 +813,47 @@ class API(VarDictionary):
         ofile.write("end if", 2)
         ofile.write(f"end subroutine {API.__part_fname}", 1)
 
+    @staticmethod
+    def write_req_vars(ofile, inout_set, input_set, output_set, indent):
+        """Write code to set variable_list to the required variables: those
+        in <inout_set>, <input_set>, and <output_set>, each one once.
+        A variable may be an input for one part of the suite and an output
+        of another part.
+        """
+        inputs = input_set - inout_set
+        outputs = output_set - inout_set - input_set
+        # Variables in both lists are written with the inputs, do not
+        #    lose them if only the outputs are requested
+        crosses = (output_set & input_set) - inout_set
+        if inout_set:
+            ofile.write("if (input_vars_use .or. output_vars_use) then", indent)
+            API.write_var_set_loop(ofile, 'variable_list', inout_set,
+                                   indent + 1, add_allocate=False)
+            ofile.write("end if", indent)
+        # end if
+        ofile.write(f"num_vars = {len(inout_set)}", indent)
+        if inputs:
+            ofile.write("if (input_vars_use) then", indent)
+            API.write_var_set_loop(ofile, 'variable_list', inputs, indent + 1,
+                                   add_allocate=False, start_var="num_vars")
+            ofile.write(f"num_vars = num_vars + {len(inputs)}", indent + 1)
+            ofile.write("end if", indent)
+        # end if
+        if outputs:
+            ofile.write("if (output_vars_use) then", indent)
+            API.write_var_set_loop(ofile, 'variable_list', outputs, indent + 1,
+                                   add_allocate=False, start_var="num_vars")
+            ofile.write(f"num_vars = num_vars + {len(outputs)}", indent + 1)
+            ofile.write("end if", indent)
+        # end if
+        if crosses:
+            ofile.write("if (output_vars_use .and. (.not. input_vars_use)) then",
+                        indent)
+            API.write_var_set_loop(ofile, 'variable_list', crosses, indent + 1,
+                                   add_allocate=False, start_var="num_vars")
+            ofile.write("end if", indent)
+        # end if
+
     def write_req_vars_sub(self, ofile, errmsg_name, errcode_name):
         """Write the required variables subroutine"""
         oline = "suite_name, variable_list, {errmsg}, {errcode}"
@@ -970,155 +1011,19 @@ class API(VarDictionary):
             ofile.write("end if", 3)
             ofile.write("allocate(variable_list(num_vars))", 3)
             # Now, fill in the variable_list array
-            # Start with inout variables
-            elem_start = 1
-            leaf_start = 1
-            leaf_written_set = inout_vars[0].copy()
-            elem_written_set = inout_vars[0].copy()
-            leaf_list = sorted(inout_vars[0])
-            if inout_vars[0] or inout_vars[1] or inout_vars[2]:
-                ofile.write("if (input_vars_use .or. output_vars_use) then", 3)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-            # end if
-            leaf_start += len(leaf_list)
-            elem_start += len(leaf_list)
-            # elements which have not been written out
-            elem_list = sorted(inout_vars[2] - elem_written_set)
-            elem_written_set = elem_written_set | inout_vars[2]
-            leaf_list = sorted(inout_vars[1] - leaf_written_set)
-            leaf_written_set = leaf_written_set | inout_vars[1]
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False,
-                                       start_index=elem_start)
-                elem_start += len(elem_list)
-                ofile.write("num_vars = {}".format(elem_start - 1), 5)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list)
-                ofile.write("num_vars = {}".format(leaf_start - 1), 5)
-                ofile.write("end if", 4)
-            else:
-                ofile.write("num_vars = {}".format(len(leaf_written_set)),
-                            4 if leaf_written_set else 3)
-            # end if
-            if inout_vars[0] or inout_vars[1] or inout_vars[2]:
-                ofile.write("end if", 3)
-            # end if
-            # Write input variables
-            leaf_list = sorted(input_vars[0] - leaf_written_set)
-            # Are there any output variables which are also input variables
-            #    (e.g., for a different part (group) of the suite)?
-            # We need to collect them now in case <input_vars> is selected
-            #    but not <output_vars>.
-            leaf_cross_set = output_vars[0] & input_vars[0]
-            simp_cross_set = (output_vars[1] & input_vars[1]) - leaf_cross_set
-            elem_cross_set = (output_vars[2] & input_vars[2]) - leaf_cross_set
-            # Subtract the variables which have already been written out
-            leaf_cross_list = sorted(leaf_cross_set - leaf_written_set)
-            simp_cross_list = sorted(simp_cross_set - leaf_written_set)
-            elem_cross_list = sorted(elem_cross_set - elem_written_set)
-            # Next move back to processing the input variables
-            leaf_written_set = leaf_written_set | input_vars[0]
-            elem_list = sorted(input_vars[2] - elem_written_set)
-            elem_written_set = elem_written_set | input_vars[0] | input_vars[2]
-            have_inputs = elem_list or leaf_list
-            if have_inputs:
-                ofile.write("if (input_vars_use) then", 3)
-                # elements which have not been written out
-            # end if
-            API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                   add_allocate=False, start_var="num_vars",
-                                   start_index=1)
-            if leaf_list:
-                ofile.write("num_vars = num_vars + {}".format(len(leaf_list)),
-                            4)
-            # end if
-            leaf_start += len(leaf_list)
-            elem_start += len(leaf_list)
-            leaf_list = input_vars[1].difference(leaf_written_set)
-            leaf_written_set.union(input_vars[1])
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False,
-                                       start_index=elem_start)
-                elem_start += len(elem_list) - 1
-                ofile.write("num_vars = {}".format(elem_start), 5)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list) - 1
-                ofile.write("num_vars = {}".format(leaf_start), 5)
-                ofile.write("end if", 4)
-            # end if
-            if have_inputs:
-                ofile.write("end if", 3)
-            # end if
-            # Write output variables
-            leaf_list = sorted(output_vars[0].difference(leaf_written_set))
-            leaf_written_set = leaf_written_set.union(output_vars[0])
-            elem_written_set = elem_written_set.union(output_vars[0])
-            elem_list = sorted(output_vars[2].difference(elem_written_set))
-            elem_written_set = elem_written_set.union(output_vars[2])
-            have_outputs = elem_list or leaf_list
-            if have_outputs:
-                ofile.write("if (output_vars_use) then", 3)
-            # end if
-            leaf_start = 1
-            API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                   add_allocate=False, start_var="num_vars",
-                                   start_index=leaf_start)
-            leaf_start += len(leaf_list)
-            elem_start = leaf_start
-            leaf_list = output_vars[1].difference(leaf_written_set)
-            leaf_written_set.union(output_vars[1])
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False, start_var="num_vars",
-                                       start_index=elem_start)
-                elem_start += len(elem_list)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False, start_var="num_vars",
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list)
-                ofile.write("end if", 4)
+            have_elems = input_vars[2] or inout_vars[2] or output_vars[2]
+            if have_elems:
+                ofile.write("if (struct_elements_use) then", 3)
+                API.write_req_vars(ofile, inout_vars[0] | inout_vars[2],
+                                   input_vars[0] | input_vars[2],
+                                   output_vars[0] | output_vars[2], 4)
+                ofile.write("else", 3)
             # end if
-            if leaf_cross_list or elem_cross_list:
-                ofile.write("if (.not. input_vars_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_cross_list,
-                                       5, add_allocate=False,
-                                       start_var="num_vars",
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_cross_list)
-                elem_start += len(leaf_cross_list)
-                if elem_cross_list or simp_cross_list:
-                    ofile.write("if (struct_elements_use) then", 5)
-                    API.write_var_set_loop(ofile, 'variable_list',
-                                           elem_cross_list, 6,
-                                           add_allocate=False,
-                                           start_var="num_vars",
-                                           start_index=elem_start)
-                    elem_start += len(elem_list)
-                    ofile.write("else", 5)
-                    API.write_var_set_loop(ofile, 'variable_list',
-                                           leaf_cross_list, 6,
-                                           add_allocate=False,
-                                           start_var="num_vars",
-                                           start_index=leaf_start)
-                    leaf_start += len(leaf_list)
-                    ofile.write("end if", 5)
-                # end if
-                ofile.write("end if", 4)
-            if have_outputs:
+            API.write_req_vars(ofile, inout_vars[0] | inout_vars[1],
+                               input_vars[0] | input_vars[1],
+                               output_vars[0] | output_vars[1],
+                               4 if have_elems else 3)
+            if have_elems:
                 ofile.write("end if", 3)
             # end if
             else_str = 'else '
-- 
2.43.0


From d56644fd23f477e8403b6d5ad7ea6fbc36648cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:09 +0000
Subject: [PATCH 37/54] fix: report a non-numeric property value as invalid

---
 scripts/var_props.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index 83fa06e..a3c9622 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -689,7 +689,7 @@ class VariableProperty:
                         valid_val = None # i.e. pass
                 else:
                     valid_val = tval
-            except CCPPError:
+            except (ValueError, TypeError):
                 valid_val = None # Redundant but more expressive than pass
         elif self.ptype is float:
             try:
@@ -703,7 +703,7 @@ class VariableProperty:
                 else:
                     valid_val = tval
                 # end if
-            except CCPPError:
+            except (ValueError, TypeError):
                 valid_val = None
             # end try
         elif self.ptype is list:
-- 
2.43.0


From d6dcf27a9e882874c2058e03ad62665a29c05f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:09 +0000
Subject: [PATCH 38/54] fix: diagnose an unknown first property of a variable

---
 scripts/metadata_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 47d99b6..125c8ec 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -905,6 +905,7 @@ class MetadataSection(ParseSource):
                         if check_prop is not None:
                             pval = check_prop.valid_value(pval_str)
                         else:
+                            pval = pval_str # Not used, this is an error
                             emsg = "variable property name"
                             self.__pobj.add_syntax_err(emsg, token=pname)
                             self.__section_valid = False
-- 
2.43.0


From 9547311dca5d5196a955a17862a646572e9bb4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:09 +0000
Subject: [PATCH 39/54] fix: reject an empty value of a required property

---
 scripts/metadata_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 125c8ec..376f2ef 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -904,6 +904,9 @@ class MetadataSection(ParseSource):
                         check_prop = Var.get_prop(pname)
                         if check_prop is not None:
                             pval = check_prop.valid_value(pval_str)
+                            if (not pval_str) and (not check_prop.optional):
+                                pval = None # A required value is missing
+                            # end if
                         else:
                             pval = pval_str # Not used, this is an error
                             emsg = "variable property name"
-- 
2.43.0


From 6f2e1d0154187e60761657b9f166e834567719ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:09 +0000
Subject: [PATCH 40/54] fix: a suite's init and final schemes are placed in
 their phase

---
 scripts/ccpp_suite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index 2d07110..513ee11 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -235,16 +235,17 @@ character(len=16) :: {css_var_name} = '{state}'
                 self.__groups.append(self.new_group(suite_item, RUN_PHASE_NAME,
                                                     run_env))
             else:
-                match_trans = CCPP_STATE_MACH.function_match(item_type)
+                match_trans = CCPP_STATE_MACH.transition_match(item_type)
                 if match_trans is None:
                     emsg = "Unknown CCPP suite component tag type, '{}'"
                     raise CCPPError(emsg.format(item_type))
                 # end if
                 if match_trans in self._full_phases:
                     # Parse a suite-wide initialization scheme
+                    phase_group = self._full_phases[match_trans]
                     scheme = Scheme(suite_item, self.__context,
-                                    self, run_env)
-                    self._full_phases[match_trans].add_item(scheme)
+                                    phase_group, run_env)
+                    phase_group.add_part(scheme)
                 else:
                     emsg = "Unhandled CCPP suite component tag type, '{}'"
                     raise ParseInternalError(emsg.format(match_trans))
@@ -444,7 +445,7 @@ character(len=16) :: {css_var_name} = '{state}'
                     header = scheme_entries[phase]
                     # Add this scheme's init or final routine
                     pgroup = self._full_phases[phase]
-                    if not pgroup.has_item(header.title):
+                    if not pgroup.has_item(module):
                         sstr = Suite.__scheme_template.format(module)
                         sxml = ET.fromstring(sstr)
                         scheme = Scheme(sxml, self.__context, pgroup, run_env)
-- 
2.43.0


From bbe18cb53e1de5e3d90519e22770dbb0bd45cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:27 +0000
Subject: [PATCH 41/54] fix: a missing unit lower bound of a dimension is
 recognised

---
 scripts/suite_objects.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 365e906..3cb95d1 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -612,13 +612,15 @@ class SuiteObject(VarDictionary):
             ndims = need_dim.split(':')
             hdims = have_dim.split(':')
             if len(ndims) > len(hdims):
-                if ndims[0].lower == 'ccpp_constant_one':
+                if ndims[0].lower() == 'ccpp_constant_one':
                     ndims = ndims[1:]
-                elif hdims[0].lower == 'ccpp_constant_one':
+                elif hdims[0].lower() == 'ccpp_constant_one':
                     hdims = hdims[1:]
                 # end if (no else)
                 # Last try
-                match = ndims == hdims
+                if ndims == hdims:
+                    match = need_dim
+                # end if
             # end if
         # end if
 
-- 
2.43.0


From c3154c058b48936f42d1f5c1c515a2fdd5114c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:27 +0000
Subject: [PATCH 42/54] fix: errors about preprocessor definitions and
 constituent parents can be reported

---
 scripts/constituents.py  | 6 +++++-
 scripts/framework_env.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index 019090e..b51415e 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -404,7 +404,11 @@ class ConstituentVarDict(VarDictionary):
         if not ((self.parent is not None) and
                 hasattr(self.parent.parent, "constituent_module")):
             emsg = "ConstituentVarDict parent not HostModel?"
-            emsg += f"\nparent is '{type_name(self.parent.parent)}'"
+            if self.parent is None:
+                emsg += "\nparent is None"
+            else:
+                emsg += f"\nparent is '{type(self.parent.parent).__name__}'"
+            # end if
             raise ParseInternalError(emsg)
         # end if
         return self.parent.parent.constituent_module
diff --git a/scripts/framework_env.py b/scripts/framework_env.py
index 88c9c20..d36ada3 100644
--- a/scripts/framework_env.py
+++ b/scripts/framework_env.py
@@ -105,9 +105,10 @@ class CCPPFrameworkEnv:
             # String of definitions, separated by spaces
             preproc_list = [x.strip() for x in preproc_defs.split(' ') if x]
         else:
-            wmsg = f"Error: Bad preproc list type, '{type_name(preproc_defs)}'"
+            wmsg = f"Error: Bad preproc list type, '{type(preproc_defs).__name__}'"
             emsg += esep + wmsg
             esep = '\n'
+            preproc_list = list()
         # end if
         # Turn the list into a dictionary
         self.__preproc_defs = {}
-- 
2.43.0


From 49dc5a195c3938eae41c14f67ce1496dc694abdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:27 +0000
Subject: [PATCH 43/54] fix: a database file is reported as not supported

---
 scripts/ccpp_database_obj.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/scripts/ccpp_database_obj.py b/scripts/ccpp_database_obj.py
index 2457975..a7c6965 100644
--- a/scripts/ccpp_database_obj.py
+++ b/scripts/ccpp_database_obj.py
@@ -55,10 +55,6 @@ class CCPPDatabaseObj:
         """Create the necessary internal data structures from a CCPP
               datatable.xml file created by capgen.
         """
-        metadata_tables = {}
-        host_name = "host"
-        self.__host_model = HostModel(metadata_tables, host_name, run_env)
-        self.__api = API(sdfs, host_model, scheme_headers, run_env)
         raise CCPPDatabaseObjError("ERROR: <database_file> not supported")
 
     def host_model_dict(self):
-- 
2.43.0


From f87c2e7c5f925953b5ae32c915efc34f76b058a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:27 +0000
Subject: [PATCH 44/54] fix: Group init and finalize setters accept booleans,
 no undefined main

---
 scripts/mkcap.py    |  4 ----
 scripts/mkstatic.py | 10 ++--------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/scripts/mkcap.py b/scripts/mkcap.py
index 69c2292..790d4d5 100755
--- a/scripts/mkcap.py
+++ b/scripts/mkcap.py
@@ -826,7 +826,3 @@ export CCPP_TYPEDEFS="'''
     @filename.setter
     def filename(self, value):
         self._filename = value
-
-###############################################################################
-if __name__ == "__main__":
-    main()
diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index a3f843b..b021b0e 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -9,7 +9,6 @@ import logging
 import os
 import re
 import sys
-import types
 import xml.etree.ElementTree as ET
 
 from common import encode_container
@@ -2028,7 +2027,7 @@ end module {module}
 
     @init.setter
     def init(self, value):
-        if not type(value) == types.BooleanType:
+        if not type(value) is bool:
             raise Exception("Invalid type {0} of argument value, boolean expected".format(type(value)))
         self._init = value
 
@@ -2039,7 +2038,7 @@ end module {module}
 
     @finalize.setter
     def finalize(self, value):
-        if not type(value) == types.BooleanType:
+        if not type(value) is bool:
             raise Exception("Invalid type {0} of argument value, boolean expected".format(type(value)))
         self._finalize = value
 
@@ -2132,8 +2131,3 @@ class Subcycle(object):
         print(self._loop)
         for scheme in self._schemes:
             print(scheme)
-
-
-###############################################################################
-if __name__ == "__main__":
-    main()
-- 
2.43.0


From 3b21fd8b8ca13be1f1d1de32429215f8a315ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:27 +0000
Subject: [PATCH 45/54] fix: undefined names in parse_fortran_file's own test

---
 scripts/fortran_tools/parse_fortran_file.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 9bc39ef..3d246f9 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -1001,6 +1001,10 @@ if __name__ == "__main__":
     fail, _ = doctest.testmod()
     from parse_tools import register_fortran_ddt_name
     # pylint: enable=ungrouped-imports
+    from framework_env import CCPPFrameworkEnv
+    _RUN_ENV = CCPPFrameworkEnv(None, ndict={'host_files':'', 'scheme_files':'',
+                                             'suites':'',
+                                             'preproc_directives':'CCPP=1'})
     _FPATH = '/Users/goldy/scratch/foo'
     _FNAMES = ['GFS_PBL_generic.F90', 'GFS_rad_time_vary.fv3.F90',
                'GFS_typedefs.F90']
@@ -1009,9 +1013,9 @@ if __name__ == "__main__":
     for fname in _FNAMES:
         fpathname = os.path.join(_FPATH, fname)
         if os.path.exists(fpathname):
-            mh = parse_fortran_file(fpathname, preproc_defs={'CCPP':1})
-            for header in mheader:
-                print('{}: {}'.format(fname, h))
+            mtables, _ = parse_fortran_file(fpathname, _RUN_ENV)
+            for header in mtables:
+                print('{}: {}'.format(fname, header))
             # end for
         # end if
     # end for
-- 
2.43.0


From ae7925c209bb51f5f4e520ef80fbe0b02b61ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:42 +0000
Subject: [PATCH 46/54] fix: a metadata table found in two files is reported as
 a duplicate

---
 scripts/ccpp_capgen.py    | 6 ++++--
 scripts/metadata_table.py | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 73fdf01..79e772f 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -504,7 +504,8 @@ def parse_host_model_files(host_filenames, host_name, run_env):
         for table in mtables:
             if table.table_name in table_dict:
                 duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                                     table.table_type,
+                                     table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
@@ -562,7 +563,8 @@ def parse_scheme_files(scheme_filenames, run_env, skip_ddt_check=False):
         for table in mtables:
             if table.table_name in table_dict:
                 duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                                     table.table_type,
+                                     table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 376f2ef..ffca672 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -468,6 +468,11 @@ class MetadataTable():
             return list(self.__sections)
         return self.__sections
 
+    @property
+    def context(self):
+        """Return the context of the beginning of this table"""
+        return self.__start_context
+
     @property
     def table_name(self):
         'Return the name of the metadata table'
-- 
2.43.0


From c2232242287be8720f4099bea8f91641157fbaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:29 +0000
Subject: [PATCH 47/54] fix: a scheme argument which writes a protected
 variable is an error

---
 scripts/suite_objects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 3cb95d1..1bc4d7e 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -922,6 +922,14 @@ class SuiteObject(VarDictionary):
                 errmsg += ", {}".format(sname)
                 raise CCPPError(errmsg)
             # end if
+            # If variable is defined as "protected", the scheme may only read it.
+            if (dict_var.get_prop_value('protected') and
+                (var.get_prop_value('intent') in ['out', 'inout'])):
+                errmsg = "Attempt to modify 'protected' variable, {}, with {}{}"
+                raise CCPPError(errmsg.format(vstdname,
+                                              var.get_prop_value('local_name'),
+                                              context_string(var.context)))
+            # end if
             # Add the variable to the parent call tree
             if dict_dims == new_dict_dims:
                 sdict = {}
-- 
2.43.0


From dc3ea22b015fd4a7add4df40bcb04e05629ec6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:23 +0000
Subject: [PATCH 48/54] fix: a scheme has one entry in the datatable, whatever
 number of groups it is in

---
 scripts/ccpp_datafile.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 9b1b260..6e9053b 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -931,9 +931,17 @@ def _new_scheme_entry(parent, scheme, group_name, scheme_headers):
 ###############################################################################
     """Create a new XML entry for <scheme> under <parent>"""
     sch_name = scheme.name
-    sch_entry = parent.find(sch_name)
+    sch_entry = None
     process = None
-    if not sch_entry:
+    # The scheme may already have an entry (from another group or suite)
+    for entry in parent:
+        if entry.get("name") == sch_name:
+            sch_entry = entry
+            process = entry.get("process")
+            break
+        # end if
+    # end for
+    if sch_entry is None:
         sch_entry = ET.SubElement(parent, "scheme")
         sch_entry.set("name", sch_name)
     # end if
@@ -947,7 +955,7 @@ def _new_scheme_entry(parent, scheme, group_name, scheme_headers):
         raise CCPPDatatableError(emsg.format(sch_name, group_name))
     # end if
     phase_entry = sch_entry.find(sch_tag)
-    if phase_entry:
+    if phase_entry is not None:
         pname = phase_entry.get("name")
         if pname != sch_name:
             emsg = "Scheme entry already exists for {} but name is {}"
@@ -990,7 +998,7 @@ def _new_scheme_entry(parent, scheme, group_name, scheme_headers):
         # end for
     # end if
     if process:
-        sch_entry.set("process", proc)
+        sch_entry.set("process", process)
     # end if
 
 ###############################################################################
-- 
2.43.0


From c0d2eafc9b2adb18f515d97c3a16355afd93fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:30 +0000
Subject: [PATCH 49/54] fix: an optional argument is passed as the group's
 variable of that standard name

---
 scripts/suite_objects.py | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 1bc4d7e..d149f12 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -145,9 +145,10 @@ class CallList(VarDictionary):
                     lname = dvar.get_prop_value('local_name')
                     # Optional variables in the caps are associated with 
                     # local pointers of <lname>_ptr
-                    is_ptr = dvar.get_prop_value('optional')
+                    is_ptr = (var.get_prop_value('optional') and
+                              dvar.get_prop_value('optional'))
                     if is_ptr:
-                        lname = dummy+'_ptr'
+                        lname = lname+'_ptr'
                     # end if
                 else:
                     cldict = None
@@ -1608,16 +1609,36 @@ class Scheme(SuiteObject):
                 # end if
                 outfile.write('',indent)
 
+    @staticmethod
+    def optional_group_name(var, cldicts):
+        """Return the local name used by the group for the optional argument,
+        <var>. This may not be the same as the name of the scheme's dummy
+        argument.
+        Return None if <var> is not optional for the group because another
+        scheme needs it (it is then passed without a local pointer)."""
+        stdname = var.get_prop_value('standard_name')
+        for cldict in cldicts:
+            dvar = cldict.find_variable(standard_name=stdname, any_scope=False)
+            if dvar is not None:
+                if dvar.get_prop_value('optional'):
+                    return dvar.get_prop_value('local_name')
+                # end if
+                return None
+            # end if
+        # end for
+        raise CCPPError(f"'{stdname}', not found in call list")
+
     def associate_optional_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
         """Write local pointer association for optional variables."""
-        if (dict_var):
+        group_lname = self.optional_group_name(var, cldicts)
+        if (dict_var and group_lname):
             (conditional, _) = dict_var.conditional(cldicts)
             if (has_transform):
                 lname = var.get_prop_value('local_name')+'_local'
             else:
-                lname = var.get_prop_value('local_name')
+                lname = group_lname
             # end if
-            lname_ptr = var_ptr.get_prop_value('local_name')
+            lname_ptr = group_lname+'_ptr'
             outfile.write(f"if ({conditional}) then", indent)
             outfile.write(f"{lname_ptr} => {lname}", indent+1)
             outfile.write(f"end if", indent)
@@ -1625,16 +1646,17 @@ class Scheme(SuiteObject):
 
     def assign_pointer_to_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
         """Assign local pointer to variable."""
-        if (dict_var):
+        group_lname = self.optional_group_name(var, cldicts)
+        if (dict_var and group_lname):
             intent = var.get_prop_value('intent')
             if (intent == 'out' or intent == 'inout'):
                 (conditional, _) = dict_var.conditional(cldicts)
                 if (has_transform):
                     lname = var.get_prop_value('local_name')+'_local'
                 else:
-                    lname = var.get_prop_value('local_name')
+                    lname = group_lname
                 # end if
-                lname_ptr = var_ptr.get_prop_value('local_name')
+                lname_ptr = group_lname+'_ptr'
                 outfile.write(f"if ({conditional}) then", indent)
                 outfile.write(f"{lname} = {lname_ptr}", indent+1)
                 outfile.write(f"end if", indent)
-- 
2.43.0


From 842711b0e826dea21377e06c4adc91d9c4005dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:24 +0000
Subject: [PATCH 50/54] fix: the local pointers of a group are not shared by
 threads or kept between calls

---
 scripts/metavar.py       | 13 +++++++------
 scripts/suite_objects.py |  4 ++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index daa3356..84a20ef 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1142,19 +1142,20 @@ class Var:
                                   sname=stdname), indent)
 
     def write_ptr_def(self, outfile, indent, name, kind, dimstr, vtype, extra_space=0):
-        """Write the definition line for local null pointer declaration to <outfile>."""
+        """Write the definition line for local pointer declaration to <outfile>.
+        There is no initialization, as this would give the pointer the SAVE
+        attribute: It would be shared by all threads and keep its association
+        between calls. The caller has to nullify the pointer."""
         comma = ', '
         if kind:
-            dstr = "{type}({kind}){cspace}pointer          :: {name}{dims}{cspace2} => null()"
+            dstr = "{type}({kind}){cspace}pointer          :: {name}{dims}"
             cspace = comma + ' '*(extra_space + 20 - len(vtype) - len(kind))
-            cspace2 = ' '*(20 -len(name) - len(dimstr))
         else:
-            dstr = "{type}{cspace}pointer          :: {name}{dims}{cspace2} => null()"
+            dstr = "{type}{cspace}pointer          :: {name}{dims}"
             cspace = comma + ' '*(extra_space + 22 - len(vtype))
-            cspace2 = ' '*(20 -len(name) - len(dimstr))
         # end if
         outfile.write(dstr.format(type=vtype, kind=kind, name=name, dims=dimstr,
-                                  cspace=cspace, cspace2=cspace2), indent)
+                                  cspace=cspace), indent)
 
     def is_ddt(self):
         """Return True iff <self> is a DDT type."""
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index d149f12..1a536ff 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2621,6 +2621,10 @@ class Group(SuiteObject):
                 errmsg = "No ccpp_error_message variable for group, {}"
                 raise CCPPError(errmsg.format(self.name))
             # end if
+            # No local pointer is associated until the code below does so
+            for (name, _, _, _) in pointer_var_set:
+                outfile.write(f"nullify({name})", 2)
+            # end for
             # Initialize error variables
             outfile.write("! Initialize ccpp error handling", 2)
             outfile.write("{} = 0".format(errcode), 2)
-- 
2.43.0


From 7f6368df4403c47399f20015682cea971f4a0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:03 +0000
Subject: [PATCH 51/54] fix: a conditional is not changed by leaving out what
 is not understood

---
 scripts/metavar.py  | 4 ++++
 scripts/mkstatic.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 84a20ef..bf5a368 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1008,6 +1008,10 @@ class Var:
         # Find all words in the conditional, for each of them look
         # for a matching standard name in the list of known variables
         items = FORTRAN_CONDITIONAL_REGEX.findall(active)
+        # Nothing (except white space) can be left out
+        if ''.join(''.join(items).split()) != ''.join(active.split()):
+            raise Exception(f"Unsupported expression in conditional '{active}'")
+        # end if
         for item in items:
             item = item.lower()
             if item in FORTRAN_CONDITIONAL_REGEX_WORDS:
diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index b021b0e..cd21972 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1190,6 +1190,10 @@ end module {module}
                             # Find all words in the conditional, for each of them look for a matching
                             # standard name in the list of known variables
                             items = FORTRAN_CONDITIONAL_REGEX.findall(var.active)
+                            # Nothing (except white space) can be left out
+                            if ''.join(''.join(items).split()) != ''.join(var.active.split()):
+                                raise Exception("Unsupported expression in conditional {} for {}".format(
+                                                                           var.active, var_standard_name))
                             for item in items:
                                 item = item.lower()
                                 if item in FORTRAN_CONDITIONAL_REGEX_WORDS:
-- 
2.43.0


From 5dd704b0b3ac51a0022b243e0ac55388fb43004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:03 +0000
Subject: [PATCH 52/54] fix: record the local name of a renamed variable as
 used in its dictionary

---
 scripts/metavar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index bf5a368..75f931d 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1707,6 +1707,8 @@ class VarDictionary(OrderedDict):
         # If we make it to here without an exception, add the variable
         if standard_name not in self:
             self[standard_name] = newvar
+            # <newvar> may have been given a new local name
+            lname = newvar.get_prop_value('local_name')
         # end if
         lname = lname.lower()
         if lname not in self.__local_names:
-- 
2.43.0


From 385edb41190449cdfc0e9b06cf197f58c247ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:03 +0000
Subject: [PATCH 53/54] fix: new internal variable names differ from those in
 use in more than case

---
 scripts/metavar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 75f931d..b59ff72 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -2092,7 +2092,7 @@ class VarDictionary(OrderedDict):
         else:
             var_prefix = '{}'.format(prefix)
         # end if
-        varlist = [x for x in self.__local_names.keys() if var_prefix in x]
+        varlist = self.__local_names.keys() # Names in lower case
         newvar = None
         while newvar is None:
             if index == 0:
@@ -2104,7 +2104,7 @@ class VarDictionary(OrderedDict):
             if len(newvar) > max_len:
                 var_prefix = var_prefix[:-1]
                 newvar = None
-            elif newvar in varlist:
+            elif newvar.lower() in varlist:
                 newvar = None
             # end if
         # end while
-- 
2.43.0


From 5544824d8725dd612ae122f054f51d1fd1d9de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:03 +0000
Subject: [PATCH 54/54] fix: variables of a group or call list never share a
 local name

---
 scripts/metavar.py       | 2 +-
 scripts/suite_objects.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index b59ff72..c293697 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1688,7 +1688,7 @@ class VarDictionary(OrderedDict):
             if gen_unique:
                 new_lname = self.new_internal_variable_name(prefix=lname)
                 newvar = newvar.clone(new_lname)
-            elif not exists_ok:
+            elif standard_name not in self:
                 errstr = 'Invalid local_name: {} already registered{}'
                 cstr = context_string(lvar.source.context, with_comma=True)
                 raise ParseSyntaxError(errstr.format(lname, cstr),
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 1a536ff..fefc1dc 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2341,7 +2341,8 @@ class Group(SuiteObject):
                         ParseSource(_API_SOURCE_NAME,
                                     _API_LOCAL_VAR_NAME, newvar.context),
                         self.run_env)
-        self.add_variable(local_var, self.run_env, exists_ok=True)
+        self.add_variable(local_var, self.run_env, exists_ok=True,
+                          gen_unique=True)
         # Finally, make sure all dimensions are accounted for
         emsg = self.add_variable_dimensions(local_var, _API_LOCAL_VAR_TYPES,
                                             adjust_intent=True,
-- 
2.43.0

