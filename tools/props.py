COMMON = ("Model checking of the specification for small sizes, and conformance of the real library on enumerated and random "
          "cases: a passing check is a bounded guarantee. Trusted: TLC, the driver (harness/) and gcc's address sanitizer. ")

prop("C01", "A grammar node lives exactly as long as it can be reached",
     "A node is destroyed exactly once, at the moment it can no longer be reached from a reference held by the user, either "
     "directly or through the children of reachable nodes. This holds for any grammar graph, with shared nodes, repeated "
     "children and loops, whatever the order in which references are taken and released and children are added or replaced. "
     "Nothing is leaked, and no operation on live nodes touches a destroyed one or alters the children of others. A constructor "
     "that is given a NULL child (the result of another constructor that failed) fails, and releases the other children.",
     ["histories", "configurations"],
     "every graph of nodes (any node type that has children, loops and sharing included) and every order of creation, linking, "
     "child replacement, reference taking and release",
     "the tests free a few hand-written grammars in one order; loops through several nodes, or replacing a child inside a loop, "
     "are not reached",
     ["src/ecoli_node.c", "src/ecoli_node_seq.c", "src/ecoli_node_or.c", "src/ecoli_node_subset.c", "src/ecoli_node_bypass.c",
      "src/ecoli_node_option.c", "src/ecoli_node_many.c", "src/ecoli_node_once.c", "src/ecoli_node_cond.c",
      "src/ecoli_node_re_lex.c", "src/ecoli_node_cmd.c", "src/ecoli_config.c"],
     [("count_references / mark_freeable / reset_mark / ec_node_free", "src/ecoli_node.c"),
      ("get_children_count, get_child (with the number of references) of each node type", "src/ecoli_node_*.c"),
      ("set_config: the new children are installed before the old ones are released", "src/ecoli_node_*.c")],
     ["destructor of a node attribute", "ec_node_get_children_count()/ec_node_get_child()"],
     COMMON + "NodeRefAlgo checks the counting algorithm against the abstract model for all graphs of 3 nodes; JNodeRef checks "
     "recorded histories of the real code.")

prop("C02", "A parse matches exactly the inputs that the grammar describes",
     "For any grammar built from strings, wildcards, sequences, alternatives, repetitions with bounds, optional parts, unordered "
     "subsets and recursive references, and any list of tokens, the parser answers match or no match, and the number of tokens "
     "consumed, exactly as the documented meaning of the nodes defines: first matching alternative, greedy repetition that never "
     "matches an empty item, the largest subset of distinct children. It always terminates and reports no error.",
     ["inputs", "programs"],
     "every grammar (as a program of nodes, with sharing and guarded recursion) and every vector of tokens",
     "each node type is tested alone on a few vectors; combinations of node types and backtracking between them are not",
     ["src/ecoli_parse.c", "src/ecoli_node_seq.c", "src/ecoli_node_or.c", "src/ecoli_node_many.c", "src/ecoli_node_option.c",
      "src/ecoli_node_subset.c", "src/ecoli_node_bypass.c", "src/ecoli_node_str.c", "src/ecoli_node_any.c",
      "src/ecoli_node_empty.c", "src/ecoli_node_none.c", "src/ecoli_node_space.c"],
     [("parse callback of each node type", "src/ecoli_node_*.c"), ("ec_parse_child", "src/ecoli_parse.c")],
     ["ec_parse_strvec(): ec_pnode_matches(), ec_pnode_len()"],
     COMMON + "Exhaustive over the grammars of height 2 of GenGrammar (quick: a sample of them) with all short inputs; random above.")

prop("C03", "The parse tree describes the match, and nothing but the match",
     "When the input matches, the returned tree mirrors the grammar: every node of it refers to the grammar node that matched and "
     "holds exactly the tokens it consumed, and its children are the matches of its children in input order. Attempts that were "
     "abandoned leave no trace in it, and a failed parse returns a tree that holds no match. Links between parents and children "
     "are consistent.",
     ["inputs", "programs"],
     "every grammar and every vector of tokens, in particular the ones that need backtracking",
     "tests look at the number of matched tokens, and rarely at the tree",
     ["src/ecoli_parse.c", "src/ecoli_node_subset.c", "src/ecoli_node_or.c", "src/ecoli_node_many.c", "src/ecoli_node_seq.c"],
     [("ec_parse_child links and unlinks the child state", "src/ecoli_parse.c"),
      ("__ec_node_subset_parse keeps the best attempt", "src/ecoli_node_subset.c")],
     ["ec_pnode_get_first_child(), ec_pnode_next(), ec_pnode_get_parent(), ec_pnode_get_strvec(), ec_pnode_get_node()"],
     COMMON + "The whole tree of every parse is compared with the one of the specification.")

prop("C04", "Completion proposes exactly what can continue the input",
     "For any grammar and any list of tokens whose last one is being typed, completion returns one item for each way in which a "
     "leaf of the grammar can take the last token after the previous ones have been matched, and no other: a full item gives the "
     "string and the characters to add, an unknown item tells that something is expected that cannot be enumerated. Repetition "
     "bounds, order and already used members of a subset are respected, items come in grammar order, and it always terminates.",
     ["inputs", "programs"],
     "every grammar (with sharing and guarded recursion) and every vector of tokens",
     "the tests complete a few vectors per node type; combinations are not reached",
     ["src/ecoli_complete.c", "src/ecoli_node_seq.c", "src/ecoli_node_many.c", "src/ecoli_node_subset.c", "src/ecoli_node_str.c",
      "src/ecoli_node_or.c", "src/ecoli_node_option.c"],
     [("complete callback of each node type", "src/ecoli_node_*.c"), ("ec_complete_child", "src/ecoli_complete.c")],
     ["ec_complete_strvec(), ec_comp_iter_first()/ec_comp_iter_next(), ec_comp_item_get_*()"],
     COMMON + "Exhaustive over the grammars of height 2 of GenGrammar (quick: a sample) with all short inputs; random above.")

prop("C07", "Integer nodes accept exactly the numbers in their range and base",
     "A signed or unsigned integer node matches a token if and only if the whole token is a number written in the configured base "
     "(prefixes decide when no base is configured) that fits in 64 bits and lies between the configured minimum and maximum, both "
     "optional. The value read back from a matching token is that number, and reading the value of any other token is an error. A "
     "configuration whose minimum is above its maximum is rejected.",
     ["inputs", "configurations"],
     "every base, every pair of optional bounds up to the limits of 64 bits, every string",
     "the tests try a few values for a handful of configurations",
     ["src/ecoli_node_int.c", "src/ecoli_string.c"],
     [("parse_llint, parse_ullint, set_config", "src/ecoli_node_int.c"),
      ("ec_str_parse_llint, ec_str_parse_ullint", "src/ecoli_string.c")],
     ["ec_parse_strvec()", "ec_node_int_getval(), ec_node_uint_getval()", "ec_node_set_config()"],
     COMMON + "Numbers are specified with unbounded precision (Num.tla). The 0b prefix and vertical tabs are not tried.")

prop("C08", "Regular expression nodes and lexers follow their patterns",
     "A regular expression node matches a token if and only if the pattern matches the whole token. A regular expression lexer "
     "splits its token from left to right, each time with the first pattern in order of addition that matches a non-empty part "
     "there, taking the longest match; it gives the kept parts to its child with the attribute of their pattern, drops the others, "
     "and matches only if no character is left unmatched and the child consumes everything. Invalid patterns are rejected at "
     "creation.",
     ["inputs", "configurations"],
     "every list of patterns, every child grammar, every string",
     "the tests use one or two patterns",
     ["src/ecoli_node_re.c", "src/ecoli_node_re_lex.c", "src/ecoli_node_any.c"],
     [("ec_node_re_parse", "src/ecoli_node_re.c"), ("tokenize", "src/ecoli_node_re_lex.c"),
      ("selection of a token by attribute", "src/ecoli_node_any.c")],
     ["ec_parse_strvec()", "ec_node_re(), ec_node_re_lex_add()"],
     COMMON + "Patterns are generated as syntax trees and matched by Regex.tla; the regex engine of libc is trusted.")

prop("C09", "A conditional node matches when its child does and its condition holds",
     "A conditional node matches what its child matches if its condition evaluates to true on the tree parsed so far, and nothing "
     "otherwise; an ill-typed condition makes the parse fail with an error. Conditions combine node sets, counts, strings, integers "
     "and booleans with documented functions, each of which yields exactly the defined value. A text that is not a condition is "
     "rejected at creation.",
     ["inputs", "programs", "configurations"],
     "every condition text, every grammar around it, every vector of tokens",
     "the tests evaluate a few fixed conditions in one grammar",
     ["src/ecoli_node_cond.c"],
     [("ec_node_cond_parse, eval_condition and the eval_* functions", "src/ecoli_node_cond.c"),
      ("grammar of conditions", "src/ecoli_node_cond.c")],
     ["ec_parse_strvec()", "ec_node_cond()"],
     COMMON + "Conditions are specified from their text (Cond.tla). Completion does not evaluate conditions and is not covered.")

prop("C10", "Once and dynamic nodes depend on what has already been parsed",
     "A once node matches, and proposes, what its child does as long as this child does not already appear in the tree being built, "
     "whatever the depth and the branch, and nothing afterwards; attempts that were abandoned do not count. A dynamic node behaves "
     "as the node that its builder returns for the tree built so far, which is released with the tree, and fails when the builder fails.",
     ["inputs", "programs"],
     "every grammar that contains these nodes, every vector of tokens, parse and completion",
     "the tests use one grammar for each",
     ["src/ecoli_node_once.c", "src/ecoli_node_dynamic.c", "src/ecoli_parse.c"],
     [("count_node", "src/ecoli_node_once.c"), ("ec_node_dynamic_parse/complete", "src/ecoli_node_dynamic.c")],
     ["ec_parse_strvec()", "ec_complete_strvec()", "allocation counters"],
     COMMON + "The builders used are three functions of the number of nodes with a given id in the tree.")

prop("C11", "A command string means what its operators say",
     "A command string accepts exactly the inputs, yields exactly the parse tree and proposes exactly the completions of the grammar "
     "that it denotes: words are literal or refer to the given nodes by id, suffixes for repetition bind tighter than the "
     "unordered-subset comma, then alternatives, then sequences, parentheses group and brackets make optional. Nodes given by the "
     "user are used unmodified, and a malformed string is rejected without leaking.",
     ["inputs", "programs"],
     "every command string, every set of nodes, every vector of tokens",
     "the tests parse a dozen of strings",
     ["src/ecoli_node_cmd.c", "src/ecoli_node_expr.c"],
     [("ec_node_cmd_build and the eval callbacks", "src/ecoli_node_cmd.c"), ("expression grammar", "src/ecoli_node_expr.c")],
     ["ec_node_set_config() on a cmd node", "ec_parse_strvec()", "ec_complete_strvec()"],
     COMMON + "Exhaustive over the strings of at most 3 symbols (thorough: 4), random above.")

prop("C06", "Shell lexing is faithful, and quotes are completed",
     "Splitting a line gives exactly the words that the quoting rules define: blanks separate, quotes and backslashes protect, a "
     "pound sign at the start of a word begins a comment up to the end of the line, and any string can be quoted so that it is "
     "read back as one word. An unterminated quote or escape is an error in strict mode, and is reported with the missing quote "
     "otherwise; a trailing blank yields an empty word only when asked. A lexer node parses the words of the line, and its full "
     "completions close the open quote. No input is truncated silently.",
     ["inputs", "programs"],
     "every string, every combination of flags, every grammar below a lexer node",
     "the tests lex a dozen of strings",
     ["src/ecoli_strvec.c", "src/ecoli_node_sh_lex.c"],
     [("ec_strvec_sh_lex_str", "src/ecoli_strvec.c"), ("ec_node_sh_lex_parse, ec_node_sh_lex_complete", "src/ecoli_node_sh_lex.c")],
     ["ec_strvec_sh_lex_str()", "ec_parse_strvec(), ec_complete_strvec() on a sh_lex node"],
     COMMON + "The automaton of ShLex is checked for all strings of 5 (thorough: 6) characters of 7 classes; the implementation is "
     "run on all the strings of 4 (thorough: 5) of them with all the flags, and on random longer ones.")

prop("C13", "Tables and dictionaries are maps that own their values",
     "After any sequence of operations, a hash table or dictionary holds exactly the last value set for each key that was not "
     "deleted since, whatever the keys (bytes, length, collisions) and the size reached; its length and its iteration agree with "
     "that. A copy is independent of the original. Each value is destroyed exactly once, when no table holds it any more, or at "
     "once if it could not be stored. A failed operation, for a bad argument or for lack of memory, changes nothing.",
     ["histories", "inputs"],
     "every sequence of operations on several tables, every key, every failing allocation",
     "the tests set and delete a few keys",
     ["src/ecoli_htable.c", "src/ecoli_dict.c"],
     [("__ec_htable_set, ec_htable_table_resize, ec_htable_dup, ec_htable_elt_ref_free", "src/ecoli_htable.c")],
     ["ec_htable_*(), ec_dict_*(), calls to the destructors of the values"],
     COMMON + "HtableAlgo (buckets, growth, counted elements) refines Dict for every hash function on 3 keys; all histories of 6 "
     "operations of the model and random ones are replayed, with allocation failures in some.")

prop("C14", "String vectors are independent values",
     "After any sequence of operations, a string vector holds exactly the strings that were put in it, in order: copies, even "
     "partial, are independent of the original, including their attributes; sorting permutes the elements with their attributes "
     "into order; comparison looks at the strings. Attributes are destroyed exactly once, when no vector holds them any more or "
     "when they could not be set. Indexes out of range are errors, and a failed operation changes nothing.",
     ["histories", "inputs"],
     "every sequence of operations on several vectors that share elements, every failing allocation",
     "the tests run one sequence of calls",
     ["src/ecoli_strvec.c"],
     [("ec_strvec_set_attrs makes a private copy of a shared element", "src/ecoli_strvec.c"),
      ("__ec_strvec_elt_free counts the references", "src/ecoli_strvec.c")],
     ["ec_strvec_*(), destruction of the attributes"],
     COMMON + "StrvecAlgo (shared counted elements, copy on write) refines Strvec; all histories of 6 operations of the model and "
     "random ones are replayed, with allocation failures in some.")

prop("C15", "Vectors hold what was added, and copies own their elements",
     "After any sequence of operations, a vector holds exactly the elements that were added to it, in order and unaltered; adding "
     "an element of another size is refused. A copy of all or part of a vector is independent of it, made with the copy function, "
     "and each element is destroyed exactly once with the destroy function. Indexes and ranges outside of the vector are errors, "
     "and a failed operation changes nothing.",
     ["histories", "inputs"],
     "every sequence of operations on several vectors, every failing allocation",
     "the tests run one sequence of calls per element size",
     ["src/ecoli_vec.c"],
     [("ec_vec_ndup, ec_vec_add_by_ref, ec_vec_free", "src/ecoli_vec.c")],
     ["ec_vec_*(), calls to the copy and destroy functions"],
     COMMON)

prop("C12", "An expression is parsed and evaluated with its precedence, without losing values",
     "An expression made of values, parentheses and prefix, suffix and binary operators is parsed with a precedence that follows "
     "the order in which the binary operators were declared, the first one binding the tightest; binary operators group from the "
     "left, suffix operators apply to what is just before them, and a prefix operator to the expression that follows it, "
     "and a value can be any grammar, even one that contains expressions. Evaluation calls the user functions accordingly, with the right operands. Every value that a function returned is either "
     "passed once to another one, returned, or freed exactly once, in particular when a function fails, whatever it left in its "
     "result.",
     ["inputs", "programs", "crash_points"],
     "every set of operators and parentheses, every expression, and the failure of any of the user functions",
     "the tests evaluate five expressions with callbacks that do not fail",
     ["src/ecoli_node_expr.c"],
     [("ec_node_expr_build: the grammar built from the operators", "src/ecoli_node_expr.c"),
      ("eval_expression, eval_list, merge_results", "src/ecoli_node_expr.c")],
     ["ec_parse_strvec(), ec_complete_strvec(), ec_node_expr_eval(): callbacks and result"],
     COMMON + "All the expressions of up to 3 tokens (samples up to 6) on 23 sets of operators, random ones above. Operators of "
     "distinct kinds are distinct nodes, and consume something.")

prop("C05", "A completion list counts, groups and iterates its items consistently",
     "At any time, a list of completions holds exactly the items that were added to it and merged into it: the count for any set of "
     "types is the number of items that the iteration over these types visits, each one once, in order. Items proposed by one "
     "visit of a node form one group, that refers to this node and to the state of the parsing at this point, even after the "
     "completion is finished, merged into another list or the grammar built on the fly is gone. An operation that fails leaves "
     "the list unchanged.",
     ["histories", "programs", "crash_points"],
     "every sequence of nested completions, item additions and modifications, merges and failures, and every grammar and input",
     "the tests build one list with a single group and look at the number of items",
     ["src/ecoli_complete.c", "src/ecoli_parse.c"],
     [("ec_comp_item_add, ec_comp_group, ec_comp_merge, __ec_comp_iter_next", "src/ecoli_complete.c"),
      ("ec_pnode_dup keeps the whole tree and the current position", "src/ecoli_parse.c")],
     ["ec_comp_count(), ec_comp_iter_first(), ec_comp_iter_next(), ec_comp_group_get_pstate()"],
     COMMON + "All the histories of 6 operations of the model (7 in the thorough tier), random ones above, with allocation "
     "failures in some; lists of random grammars with their state.")

prop("C16", "A node behaves as its last accepted configuration says, or nothing changed",
     "A configuration is accepted by a node if and only if it respects the published schema of the node type and the constraints "
     "of the type; the node then behaves exactly as a node built with that configuration, whatever it was before. A configuration "
     "that is rejected, or that could not be installed for lack of memory, leaves the node and its current configuration as they "
     "were, and the configuration given is freed in all the cases. Configuration values behave as typed trees: lookups, "
     "insertions, deletions, copies, comparisons and schema validation give the same results as on the mathematical value.",
     ["histories", "programs", "crash_points"],
     "every sequence of valid and invalid configurations of every node type, interleaved with parsing and completion, and every "
     "value and schema",
     "the tests configure a few nodes once, with valid values",
     ["src/ecoli_config.c", "src/ecoli_node.c", "src/ecoli_node_*.c"],
     [("ec_node_set_config, ec_config_validate, ec_config_schema_validate", "src/ecoli_node.c, src/ecoli_config.c"),
      ("the set_config callback of each node type", "src/ecoli_node_*.c")],
     ["ec_node_set_config(), ec_node_get_config(), ec_config_*(), ec_node_*_set_*(), ec_node_*_add*()"],
     COMMON + "GenConfig: all the histories of 5 operations on two values (6 in the thorough tier); random histories on values of "
     "depth 3, random schemas valid or not; random sequences of configurations of all the node types between parse and completion "
     "requests that Grammar.tla answers, with allocation failures in some.")

prop("C17", "A parse tree stays a well-formed tree under every operation on it",
     "After any sequence of creations, links, unlinks, copies and deletions, parse nodes form a forest whose parent, first child, "
     "last child, next sibling and root are mutually consistent; a node that was unlinked is a root without siblings. A copy has "
     "the same shape, matches and attributes as the whole tree it is made from, gives the corresponding node, and is independent "
     "of it. Searching by identifier and iterating visit exactly the nodes below the given root, depth first, each one once, "
     "skipping the children when asked to.",
     ["histories"],
     "every sequence of operations on several trees, obtained by hand or from the parser",
     "the tests parse one string, copy the tree and look for two identifiers",
     ["src/ecoli_parse.c"],
     [("ec_pnode_dup, ec_pnode_link_child, ec_pnode_unlink_child", "src/ecoli_parse.c"),
      ("__ec_pnode_iter_next, ec_pnode_find_next", "src/ecoli_parse.c")],
     ["ec_pnode_*()"],
     COMMON + "GenPnode: all the histories of 6 operations on 4 nodes (7 on 5 in the thorough tier); random histories on up to 40 "
     "nodes, some that end with an allocation failure.")

prop("C18", "A YAML document builds exactly the grammar it describes, or is refused",
     "Importing a document gives the grammar that the document describes: the same node types, identifiers, help and attributes, "
     "typed configuration and sharing (anchors and aliases, loops included), and it parses and completes like the grammar built by "
     "hand. A document that does not describe a grammar (unknown type, value outside of the schema, missing or duplicate field, "
     "number out of range, syntax error) is refused as a whole. No document makes the import crash, leak, or depend on how the "
     "scalars are quoted; neither does the failure of any allocation.",
     ["inputs", "crash_points"],
     "every YAML document, valid or not, every spelling of it, and the failure of any allocation",
     "the tests import two small files and compare one parse",
     ["src/ecoli_yaml.c", "src/ecoli_config.c", "src/ecoli_node.c"],
     [("parse_ec_node, parse_ec_config, parse_ec_config_dict, parse_ec_config_list", "src/ecoli_yaml.c"),
      ("table of the nodes already created: aliases and loops", "src/ecoli_yaml.c")],
     ["ec_yaml_import(), then ec_node_get_config(), ec_node_attrs(), ec_parse_strvec() and ec_complete_strvec() on its nodes"],
     COMMON + "Random documents of up to 8 nodes over all the node types, spelled at random (quotes, flow and block styles, anchors), "
     "then altered in one or several places; the imported grammar is compared field by field, then questioned.")

prop("C19", "Line edition completes, helps and remembers what the grammar says",
     "When a key asks for it, the characters that all the completions of the text before the cursor begin with are inserted at the "
     "cursor and nothing else of the line changes, with a space after them if there is only one full completion; when nothing can be "
     "added, the possible completions or the contextual help are displayed. The help lists one entry for each thing that the grammar "
     "expects at the cursor, with the help of its innermost node, and tells if the line is complete. Lines that are read are returned "
     "unchanged, and the history, in memory and in its file, holds the last ones that are neither blank nor repeated.",
     ["inputs", "programs", "histories", "crash_points"],
     "every grammar, line, cursor position and sequence of keys, every sequence of lines and history settings, and the failure of any "
     "allocation",
     "there is no test of this part at all",
     ["src/ecoli_editline.c", "src/ecoli_complete.c"],
     [("ec_editline_complete, ec_editline_append_chars, ec_editline_print_cols", "src/ecoli_editline.c"),
      ("ec_editline_get_helps, ec_editline_get_suggestions, get_node_help", "src/ecoli_editline.c"),
      ("ec_editline_gets, ec_editline_parse, ec_editline_set_history", "src/ecoli_editline.c")],
     ["ec_editline_*(), el_line(), the output stream and the history file"],
     COMMON + "Random grammars, lines and cursors on an editline object fed by a pipe or a pseudo terminal; the text displayed, the "
     "line, the cursor, the lines returned and the history file are compared.")

prop("C20", "Init, exit, allocator, logs and the type registry keep their contract",
     "ec_init() calls the registered functions once each, by increasing priority, until one fails, and reports this failure or any "
     "lack of memory; ec_exit() calls all the exit functions in the reverse order and gives back all the memory. The allocator "
     "registered before the initialization, and it alone, serves every request with the size asked for, refusing sizes that "
     "overflow; it cannot be replaced afterwards. A log type has one identifier and one name; a message reaches the registered "
     "function, or the standard error if its level allows it, unaltered. A node type is found by the name it was last registered "
     "under, and a name is only redefined on request.",
     ["histories", "crash_points"],
     "every sequence of these operations in a process, with any allocation failing",
     "the tests run in one process initialized once with the default settings",
     ["src/ecoli_init.c", "src/ecoli_malloc.c", "src/ecoli_log.c", "src/ecoli_node.c"],
     [("ec_init, ec_exit, ec_init_register", "src/ecoli_init.c"),
      ("ec_malloc_register, __ec_calloc, __ec_realloc, __ec_strndup", "src/ecoli_malloc.c"),
      ("ec_log_type_register, ec_vlog, ec_log_default_cb", "src/ecoli_log.c"),
      ("ec_node_type_register, ec_node_type_lookup", "src/ecoli_node.c")],
     ["ec_init_register(), ec_init(), ec_exit(), ec_malloc_register(), ec_malloc() and others, ec_log_*(), ec_node_type_*()"],
     COMMON + "GenRuntime: all the histories of 4 registrations, initializations and terminations (5 in the thorough tier); random "
     "histories of 3 to 25 operations of all kinds, each in a new process; every allocation of ec_init() failing in turn.")

prop("C21", "Running out of memory gives an error, never a crash, a leak or a broken grammar",
     "Whatever allocation fails during the creation of a node, a change of a grammar, a parse, a completion or the evaluation of an "
     "expression, the call either gives exactly the result it would give with enough memory or reports an error with errno set. A "
     "call that reports an error leaves the grammar and the input as they were, loses no memory and consumes the nodes it was given; "
     "the same call made again with enough memory succeeds.",
     ["inputs", "crash_points"],
     "every node type, grammar and input, and every allocation made by the call",
     "no test makes an allocation fail with a precise result expected",
     ["src/ecoli_node_*.c", "src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_node.c", "src/ecoli_config.c"],
     [("the parse, complete, set_config and free_priv callbacks of each node type", "src/ecoli_node_*.c"),
      ("__ec_node_seq, __ec_node_or, __ec_node_subset, __ec_node_cmd: ownership of the children", "src/ecoli_node_*.c"),
      ("ec_node_expr_build, ec_node_expr_eval", "src/ecoli_node_expr.c")],
     ["all the constructors, ec_node_*_add*(), ec_node_*_set_*(), ec_parse_strvec(), ec_complete_strvec(), ec_node_expr_eval()"],
     COMMON + "Random grammars of all the node types and expressions; each operation that builds them and each request on them is "
     "repeated with its first, second... allocation failing (70 of them, then a sample); what is left is compared before and after.")

prop("C22", "The file node proposes exactly the files that continue the path",
     "Completing a path proposes each file of the designated directory whose name continues the last component, once, and nothing "
     "else: directories as partial items ended by a slash, other files as full items, displayed without their directory, hidden ones "
     "only after a leading dot. A path whose directory cannot be listed has no completion. What was typed is never altered, the "
     "result follows the changes of the directory, does not depend on what the file system tells about the types of the files, and a "
     "failure to read the directory or to allocate is reported instead of a truncated list.",
     ["inputs", "histories", "crash_points"],
     "every tree of files, history of changes and text, alone or inside any grammar, with any allocation or read failing",
     "the test simulates one directory of seven files and four inputs",
     ["src/ecoli_node_file.c", "src/ecoli_complete.c"],
     [("ec_node_file_complete, split_path", "src/ecoli_node_file.c"),
      ("ec_comp_item_set_display", "src/ecoli_complete.c")],
     ["ec_complete_strvec() on a grammar that contains a file node, in a scratch directory"],
     COMMON + "GenFile: all the trees of 3 files (4 in the thorough tier) over 3 names, 3 kinds and 3 link targets, 17 texts each; "
     "random histories of creations and removals mixed with requests, with readdir() failing or not giving types, and each "
     "allocation failing in turn.")

prop("C23", "Searches, lists of children and dumps show objects completely and end",
     "For any grammar, loops included, and any node, configured or not: the type, identifier, description and children that the "
     "accessors give are those the node was given; ec_node_find() finds the first node with an identifier, depth first, exactly when "
     "one can be reached; the dumps of grammars, parse trees, completions, string vectors, configurations, schemas and node types end, "
     "have one line for each element, at its depth, with what the accessors tell about it, and show nothing else. None of them "
     "changes the object, loses memory or crashes, even when an allocation fails.",
     ["inputs", "crash_points"],
     "every grammar (with loops, with nodes that are not configured), parse tree, completion, configuration and schema",
     "the tests search for a few words in the dumps of small objects without loops",
     ["src/ecoli_node.c", "src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_config.c", "src/ecoli_strvec.c"],
     [("ec_node_find, ec_node_dump, ec_node_desc, ec_node_get_child", "src/ecoli_node.c"),
      ("ec_pnode_dump", "src/ecoli_parse.c"), ("ec_comp_dump", "src/ecoli_complete.c"),
      ("ec_config_dump, ec_config_schema_dump", "src/ecoli_config.c"), ("ec_strvec_dump", "src/ecoli_strvec.c")],
     ["ec_node_find(), ec_node_get_child(), ec_node_desc() and the *_dump() functions"],
     COMMON + "Random grammars of all the node types with loops, examined from several nodes, with the parse trees and completions of "
     "random inputs; nodes that were just created; random configurations and schemas; each dump repeated with its allocations failing.")

prop("C24", "An answer depends only on the grammar and the input, and stays what it was",
     "The result of a parse or of a completion is determined by the grammar at the time of the request and by the input: it does not "
     "depend on the earlier requests, nor on the results that are still alive. A request leaves its input unchanged and the input can "
     "be freed at once; a result stays valid and unchanged until it is freed, whatever other requests, copies and frees are made in "
     "between, in any order, and although nodes are added to the grammar meanwhile. Nothing is lost when all is freed.",
     ["histories", "inputs"],
     "every history of requests, copies, frees and additions to the grammar, for every grammar and input",
     "tests free each result before the next request and never look at one again later",
     ["src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_strvec.c", "src/ecoli_node_*.c"],
     [("ec_parse_strvec, __ec_parse_child, ec_pnode_dup, ec_pnode_free", "src/ecoli_parse.c"),
      ("ec_complete_strvec, ec_comp_free", "src/ecoli_complete.c"),
      ("ec_strvec_ndup: strings shared by several vectors", "src/ecoli_strvec.c"),
      ("ec_node_dynamic_parse, ec_node_dynamic_complete: nodes kept by the results", "src/ecoli_node_dynamic.c")],
     ["ec_parse_strvec(), ec_complete_strvec(), ec_pnode_dup(), ec_pnode_free(), ec_comp_free()"],
     COMMON + "GenKeep: all the orders of 4 (5 in the thorough tier) requests, looks, copies, frees and additions over two results, and "
     "random longer ones over four, each on a random grammar of all the node types.")

prop("C25", "Strings and numbers are compared, formatted, parsed and hashed as documented",
     "For all strings: ec_strcmp_count() counts the identical characters at the beginning, ec_str_startswith() tells whether one begins "
     "with the other, ec_str_is_space() whether there are only spaces; ec_asprintf() and ec_vasprintf() return the formatted string, of "
     "any length, in an area of the allocator of the library, and its length, or -1 and no area when memory is missing. "
     "ec_str_parse_llint() and ec_str_parse_ullint() succeed if and only if the whole string is a number in the given base (0: guessed "
     "from the prefix) that fits in 64 bits and lies between the bounds (no minus sign for the unsigned one): they then store its "
     "value and leave errno as it was; else they return -1 and set errno. ec_murmurhash3() is MurmurHash3 for every length, seed and "
     "alignment of the key.",
     ["inputs"],
     "every string, base, bound, format and key",
     "these helpers have almost no tests of their own: only the values that the tests of a few nodes need",
     ["src/ecoli_string.c", "src/ecoli_murmurhash.c"],
     [("ec_str_parse_llint, ec_str_parse_ullint, ec_vasprintf, ec_strcmp_count, ec_str_startswith, ec_str_is_space", "src/ecoli_string.c"),
      ("ec_murmurhash3", "src/ecoli_murmurhash.c")],
     ["the functions of ecoli_string.h and ec_murmurhash3()"],
     COMMON + "Text.tla defines each result: numbers of unlimited precision (Num.tla), padding and precision of the formats, MurmurHash3 on "
     "sequences of bytes (Murmur.tla). Numbers around the limits of 64 bits and around the bounds, in 11 bases, with signs, spaces and "
     "prefixes; all the pairs of short strings and random long ones; every single byte for the spaces; texts up to 70000 bytes; keys "
     "of 0 to 1000 bytes at every alignment.")

prop("C26", "Node types defined by an application work in a grammar like those of the library",
     "For any node type registered by an application, and any grammar in which its nodes are mixed with the others: its parse function "
     "receives the words that remain and a state positioned on its node; what it returns decides (a number of words, no match, or an "
     "error that makes the whole parse fail with errno set); the children it parses, or forgets, appear in the parse tree "
     "accordingly. Its completion function receives the words that remain and the state; the items it adds, before or after those "
     "of its children, form one group, in order, with the state at that point; an error makes the completion fail; without a "
     "completion function, one unknown item is proposed for a last word. Items that do not start with the completed token never "
     "alter the line. Its private area is zeroed before init_priv, and free_priv is called once for each node.",
     ["inputs", "programs"],
     "every behaviour of the callbacks, every grammar that uses such nodes, and every input",
     "the tests define no node type that parses or completes",
     ["src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_node.c", "src/ecoli_node_*.c"],
     [("__ec_parse_child, ec_pnode_del_last_child", "src/ecoli_parse.c"),
      ("ec_complete_child, ec_complete_unknown, ec_comp_add_item", "src/ecoli_complete.c"),
      ("ec_node_from_type, ec_node_free", "src/ecoli_node.c"),
      ("ec_node_sh_lex_complete: items of any child", "src/ecoli_node_sh_lex.c")],
     ["ec_parse_strvec(), ec_complete_strvec(), the callbacks of struct ec_node_type"],
     COMMON + "The harness defines two node types whose configuration is their behaviour (words consumed, errors, children skipped to, looked "
     "ahead with, or parsed twice, items before and after); Grammar.tla defines what they mean. Random grammars that contain them, "
     "with all the other types of nodes, loops and lexers; parse trees, groups and states are compared.")
