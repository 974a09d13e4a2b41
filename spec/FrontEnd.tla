------------------------------ MODULE FrontEnd ------------------------------
(***************************************************************************)
(* The command line tool geodiffinfo and the Python module pygeodiff as    *)
(* functions to calls of the C API.                                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* modes of geodiffinfo: the number of arguments that the call of the same name needs
CliModes == {"createChangeset", "createRebasedChangeset", "applyChangeset", "listChanges", "listChangesSummary", "makeCopy",
             "createChangesetEx", "applyChangesetEx", "rebaseEx", "dumpData"}
CliArity(m) == CASE m = "createChangeset" -> 3 [] m = "createRebasedChangeset" -> 5 [] m = "applyChangeset" -> 2 [] m = "listChanges" -> 2
                 [] m = "listChangesSummary" -> 2 [] m = "makeCopy" -> 6 [] m = "createChangesetEx" -> 5 [] m = "applyChangesetEx" -> 4
                 [] m = "rebaseEx" -> 6 [] m = "dumpData" -> 4
NoModes == {"", "rebase", "hasChanges", "invertChangeset", "CREATECHANGESET", "createChangese", "createChangesetExx", "help", "-h"}
\* what n arguments after the mode mean: a call of the library (further arguments are ignored), or wrong usage
CliMeaning(m, n) == CASE m = "version" -> "version"
                      [] m \in CliModes -> IF n >= CliArity(m) THEN "call" ELSE "usage"
                      [] OTHER -> "usage"
ArgvCases == {<<m, n, CliMeaning(m, n)>> : m \in CliModes \cup NoModes \cup {"version"}, n \in 0..7}

\* methods of GeoDiff and how they report the return code of the library
PyMethod(fn) == CASE fn = "createChangeset" -> "create_changeset" [] fn = "invertChangeset" -> "invert_changeset" [] fn = "rebase" -> "rebase"
                  [] fn = "createRebasedChangeset" -> "create_rebased_changeset" [] fn = "applyChangeset" -> "apply_changeset" [] fn = "listChanges" -> "list_changes"
                  [] fn = "listChangesSummary" -> "list_changes_summary" [] fn = "hasChanges" -> "has_changes" [] fn = "changesCount" -> "changes_count"
PyFns == {"createChangeset", "invertChangeset", "rebase", "createRebasedChangeset", "applyChangeset", "listChanges", "listChangesSummary", "hasChanges", "changesCount"}
\* <<kind, value>>: returned, or the class of the exception raised
PyOutcome(fn, rc) ==
  CASE fn = "hasChanges" -> IF rc < 0 THEN <<"GeoDiffLibError", 0>> ELSE <<"returned", IF rc = 1 THEN 1 ELSE 0>>
    [] fn = "changesCount" -> IF rc < 0 THEN <<"GeoDiffLibError", 0>> ELSE <<"returned", rc>>
    [] rc = 0 -> <<"returned", 0>>
    [] rc = 1 -> <<"GeoDiffLibError", 0>>
    [] rc = 2 -> <<"GeoDiffLibConflictError", 0>>
    [] rc = 3 -> <<"GeoDiffLibUnsupportedChangeError", 0>>
    [] OTHER -> <<"GeoDiffLibVersionError", 0>>
StubCodes(fn) == IF fn = "hasChanges" THEN {-1, 0, 1} ELSE IF fn = "changesCount" THEN {-1, 0, 1, 2, 3, 255, 256, 2147483647} ELSE {-1, 0, 1, 2, 3, 4, 255, 256}
StubCases == {<<fn, PyMethod(fn), rc>> : <<fn, rc>> \in {x \in PyFns \X (-1..4 \cup {255, 256, 2147483647}) : x[2] \in StubCodes(x[1])}}
=============================================================================
